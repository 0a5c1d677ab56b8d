import sys
import gc
import simpy
base, path = sys.argv[1], sys.argv[2]
sys.path.insert(0, base)
import hext
import _hext

out = sys.stdout
rules, htmls = {}, {}

def show(v):
    if not isinstance(v, list):
        return "V" + "?" + type(v).__name__
    o = ["V"]
    for d in v:
        if type(d) is not dict:
            o.append("?" + type(d).__name__)
            continue
        o.append("[")
        for k in sorted(d, key=lambda s: s.encode("utf-8", "surrogatepass")):
            x = d[k]
            o.append(k.encode("utf-8", "surrogatepass").hex() + "=")
            if type(x) is list:
                o.append("(" + ",".join("'" + y.encode("utf-8", "surrogatepass").hex() if type(y) is str else "?" for y in x) + ")")
            else:
                o.append("'" + x.encode("utf-8", "surrogatepass").hex() if type(x) is str else "?" + type(x).__name__)
            o.append(";")
        o.append("]")
    return "".join(o)

# what the window does; everything else happens outside of it
def make(text):
    return hext.Rule(text)

def ext(r, h, n):
    return r.extract(h, n)

# Where the interpreter's allocations fail, only the wrapper itself runs: not CPython's frames and collector.
bare = _hext.Rule_extract

def attempt(f, args):
    try:
        return simpy.call(f, args), None
    except BaseException as e:
        name = type(e).__name__
        e.__traceback__ = None
        return None, name

def one(opno, spec, rep, f, args, la, pa, keep):
    """Runs f under the planned failures and prints what came of it."""
    _hext.simp_arm(la[0], la[1])
    simpy.arm(pa[0], pa[1])
    if pa != NONE:
        gc.disable()                    # CPython's collector prints and loses the errors it meets
    v, err = attempt(f, args)
    gc.enable()
    n, fired, _ = simpy.stat()
    lib, libfired = _hext.simp_allocs(), _hext.simp_fired()
    _hext.simp_disarm()
    res = "E" + err if err else ("V" if keep else show(v))
    kept = v
    v = None
    if not keep or err:
        kept = None
    gc.collect()
    live = simpy.stat()[2]
    out.write("O %d %s %d %d 0 %d %d %s\n" % (opno, spec, rep, fired + libfired, _hext.simp_live(), live, res))
    out.flush()
    return kept, lib, n

NONE = (0, 0)

def window(part, n):
    pos, length = part.split("+")
    a = int(pos) * n // 10000
    return (a, 1 << 40) if length == "a" else (a, a + int(length))

def operate(opno, f, args, faults, keep, store):
    full = f
    v, lib, n = one(opno, "-", 0, f, args, NONE, NONE, keep)
    if keep and v is not None:
        store(v)
    v = None
    if faults:
        if f is ext:
            f = bare
        v, lib, n = one(opno, "-", 1, f, args, NONE, NONE, keep)      # counted without what only a first call does
        v = None
    for spec in faults:
        body, reps = spec.split("*")
        la = pa = NONE
        for part in body.split("&"):
            if part[0] == "L":
                la = window(part[1:], lib)
            elif part[0] == "P":
                pa = window(part[1:], n)
        for rep in range(int(reps)):
            v, _, _ = one(opno, spec, rep, f, args, la, pa, keep)
            if keep and v is not None:
                store(v)
            v = None
    if faults and not keep:
        f = full
        one(opno, "-", 2, f, args, NONE, NONE, keep)

# Calls that no correct script makes. Each must raise; those marked True may as well work.
def wrong(r, h):
    return [
        (lambda: r.extract(None), False), (lambda: r.extract(5), False), (lambda: r.extract("<a>"), False), (lambda: r.extract(r), False),
        (lambda: r.extract(), False), (lambda: r.extract(h, 0, 0), False), (lambda: r.extract(h, "1"), False), (lambda: r.extract(h, -1), True),
        (lambda: r.extract(h, 1 << 70), False), (lambda: r.extract(h, 1.5), True), (lambda: r.extract(h, None), True), (lambda: r.extract([h]), False),
        (lambda: hext.Rule(None), False), (lambda: hext.Rule(), False), (lambda: hext.Rule(5), False), (lambda: hext.Rule("<a />", "<b />"), False),
        (lambda: hext.Html(None), False), (lambda: hext.Html(), False), (lambda: hext.Html([]), False), (lambda: hext.Rule(h), False),
        (lambda: hext.Rule.extract(h, h), False), (lambda: hext.Rule.__new__(hext.Rule).extract(h), False), (lambda: r.extract(hext.Html.__new__(hext.Html)), False),
        (lambda: hext.Rule("<a @text:x />\ud800"), True), (lambda: hext.Html("<a>\ud800</a>"), True), (lambda: r.extract(h, True), True), (lambda: hext.Rule.extract(None, h), False),
        (lambda: r.extract(object()), False), (lambda: hext.Rule(b"<a @text:x />"), True), (lambda: hext.Html(b"<a>"), True),
    ]

def misuse(opno, v, r, h):
    f, may = wrong(r, h)[v % len(wrong(r, h))]
    try:
        f()
        res = "L" if may else "Vaccepted"
    except Exception as e:
        res = "E" + type(e).__name__
    out.write("O %d - 0 0 0 0 0 %s\n" % (opno, res))
    out.flush()

def main():
    for line in open(path):
        w = line.split()
        if w[0] == "S":
            _hext.simp_fill(int(w[1]), int(w[2]))
        elif w[0] == "C":
            if w[1] == "gc":
                gc.set_threshold(int(w[2]))
        elif w[0] == "R":
            text = bytes.fromhex(w[3][1:]).decode("utf-8")
            slot = int(w[2])
            operate(int(w[1]), make, (text,), w[4:], True, lambda v: rules.__setitem__(slot, v))
        elif w[0] == "H":
            htmls[int(w[2])] = hext.Html(bytes.fromhex(w[3][1:]).decode("utf-8"))
        elif w[0] == "E":
            operate(int(w[1]), ext, (rules[int(w[2])], htmls[int(w[3])], int(w[4])), w[5:], False, None)
        elif w[0] == "K":
            h = hext.Html(bytes.fromhex(w[3][1:]).decode("utf-8"))
            operate(int(w[1]), ext, (rules[int(w[2])], h, int(w[4])), [], False, None)
            h = None
        elif w[0] == "X":
            misuse(int(w[1]), int(w[2]), rules[int(w[3])], htmls[int(w[4])])
        elif w[0] == "D":
            (rules if w[2] == "r" else htmls).pop(int(w[3]), None)
        elif w[0] == "G":
            gc.collect()
    rules.clear()
    htmls.clear()
    gc.collect()
    out.write("END\n")
    out.flush()

main()
