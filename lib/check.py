#!/usr/bin/env python3
"""Decides one property by seeded simulation: builds, searches, confirms, minimises, reports."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, ENGINE_INFO

HERE = build.HERE
WORKERS = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 8)
MAXVIOL = 2


def env_for(engine, repo_corpus):
    e = dict(os.environ)
    e["SIM_CORPUS"] = repo_corpus
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    for k in list(e):
        if k.startswith(("ASAN_", "UBSAN_", "LSAN_", "TSAN_", "MALLOC_", "GLIBC_")) or k in ("LD_PRELOAD",):
            e.pop(k)
    return e


def noaslr():
    p = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return ["setarch", "-R"] if p.returncode == 0 else []


def corpus():
    """A copy of the repository's black box cases, so a run never reads from /repo while it works."""
    d = os.path.join(HERE, "build", "corpus")
    src = os.path.join(build.REPO, "test", "case")
    names = []
    os.makedirs(d, exist_ok=True)
    if os.path.isdir(src):
        for f in sorted(os.listdir(src)):
            n, ext = os.path.splitext(f)
            if ext == ".hext" and os.path.exists(os.path.join(src, n + ".html")):
                t, h = build.read(os.path.join(src, f)), build.read(os.path.join(src, n + ".html"))
                if len(t) > 20000 or len(h) > 60000:
                    continue
                for x, c in ((".hext", t), (".html", h)):
                    dst = os.path.join(d, n + x)
                    if not os.path.exists(dst) or build.read(dst) != c:
                        tmp = f"{dst}.{os.getpid()}"
                        open(tmp, "wb").write(c)
                        os.replace(tmp, dst)
                names.append(n)
    lst = os.path.join(d, "LIST")
    tmp = f"{lst}.{os.getpid()}"
    open(tmp, "w").write("".join(n + "\n" for n in names))
    os.replace(tmp, lst)
    return d


class Runner:
    def __init__(self, engine):
        self.engine = engine
        self.exe, self.build_s, self.compiled = build.engine(engine)
        cmd = self.exe if isinstance(self.exe, list) else [self.exe]
        self.cmd = noaslr() + cmd
        self.env = env_for(engine, corpus())

    def replay(self, prop, text, verbose=False, timeout=120):
        """Executes a plan in a fresh process: (class or None or 'ERROR', trace, message, full output)."""
        path = os.path.join(self.tmp, f"replay-{os.getpid()}.plan")
        with open(path, "wb") as f:
            f.write(text)
        try:
            p = subprocess.run(self.cmd + ["replay", prop, path] + (["v"] if verbose else []), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, env=self.env, timeout=timeout, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            return "ERROR", "", "replay timed out", ""
        out = p.stdout
        t = re.search(r"^TRACE (\w+)$", out, re.M)
        v = re.search(r"^VIOL (\S+) \| (.*)$", out, re.M)
        if v:
            return v.group(1), t.group(1) if t else "", v.group(2), out
        if p.returncode == 0 and t:
            return None, t.group(1), "", out
        return "ERROR", "", out[-800:], out

    def explore(self, prop, seed, first, runs, tier, limit, tmp):
        """Runs [first, first+runs) on all workers in small disjoint slices."""
        n = WORKERS
        procs = []
        per = (runs + n - 1) // n
        for w in range(n):
            a, b = first + w * per, min(first + (w + 1) * per, first + runs)
            if a >= b:
                continue
            d = os.path.join(tmp, f"{self.engine}-{w}")
            os.makedirs(d, exist_ok=True)
            log = open(os.path.join(d, "log"), "w+", errors="replace")
            p = subprocess.Popen(self.cmd + ["run", prop, str(seed), str(a), str(b), d, tier, str(limit)],
                                 stdout=log, stderr=subprocess.STDOUT, env=self.env)
            procs.append((p, log, d, a))
        res = dict(runs=0, stats={}, traces=set(), viols=[], errors=[], planned=runs)
        for p, log, d, a in procs:
            try:
                p.wait(timeout=limit + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                res["errors"].append(f"worker stuck at slice {a}")
            log.seek(0)
            done = False
            for line in log.read().splitlines():
                if line.startswith("VIOL "):
                    m = re.match(r"VIOL idx=(\d+) cls=(\S+) trace=(\w+) file=(\S+) \| (.*)", line)
                    res["viols"].append(dict(idx=int(m[1]), cls=m[2], trace=m[3], file=m[4], msg=m[5], engine=self.engine))
                elif line.startswith("ERROR "):
                    res["errors"].append(line)
                elif line.startswith("DONE "):
                    done = True
                    m = re.match(r"DONE runs=(\d+) traces=(\d+) hash=(\w+) wall=([\d.]+) stats=(.*)$", line)
                    res["runs"] += int(m[1])
                    for k, v in json.loads(m[5]).items():
                        res["stats"][k] = max(res["stats"].get(k, 0), v) if k.startswith("max:") else res["stats"].get(k, 0) + v
            if not done:
                log.seek(0)
                res["errors"].append(f"worker {a} ended with status {p.returncode}: " + log.read()[-600:])
            log.close()
            for f in os.listdir(d):
                if f.startswith("traces-"):
                    res["traces"].update(open(os.path.join(d, f)).read().split())
        return res


# ---- minimisation: fewer steps, fewer events, shorter texts, same class of violation ----------------
def minimise(r, prop, text, cls, seconds):
    end = time.time() + seconds
    tried = [0]

    def bad(lines):
        if time.time() > end:
            return False
        tried[0] += 1
        c, _, _, _ = r.replay(prop, b"\n".join(lines) + b"\n")
        return c == cls

    lines = [l for l in text.split(b"\n") if l and not l.startswith(b"#")]

    def ddmin(items, test):
        n = 2
        while len(items) >= 2 and time.time() < end:
            size = max(1, len(items) // n)
            chunks = [items[i:i + size] for i in range(0, len(items), size)]
            for i in range(len(chunks)):
                rest = [x for j, c in enumerate(chunks) if j != i for x in c]
                if rest and test(rest):
                    items, n = rest, max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    lines = ddmin(lines, bad)
    for rnd in range(2):
        before = list(lines)
        for i in range(len(lines)):
            words = lines[i].split(b" ")
            if len(words) > 3:
                def t1(ws, i=i, h=words[:1]):
                    return bad(lines[:i] + [b" ".join(h + ws)] + lines[i + 1:])
                words = words[:1] + ddmin(words[1:], t1)
                cand = b" ".join(words)
                if cand != lines[i]:
                    lines = lines[:i] + [cand] + lines[i + 1:]
            for k in range(1, len(words)):
                toks = re.findall(rb"\\x..|\\.|[^\\]", words[k])
                if len(toks) < 9:
                    continue
                def t2(ts, i=i, k=k):
                    ws = lines[i].split(b" ")
                    ws[k] = b"".join(ts)
                    return bad(lines[:i] + [b" ".join(ws)] + lines[i + 1:])
                toks = ddmin(toks, t2)
                ws = lines[i].split(b" ")
                ws[k] = b"".join(toks)
                lines = lines[:i] + [b" ".join(ws)] + lines[i + 1:]
        if lines == before or time.time() > end:
            break
        lines = ddmin(lines, bad)
    return b"\n".join(lines) + b"\n", tried[0]


def known_keys(prop):
    keys = {}
    for l in open(os.path.join(HERE, "known_findings.txt"), errors="replace"):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m[1] == prop:
            keys[m[2]] = m[3].strip()
    return keys


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    tmp = os.path.join(HERE, "build", "tmp", f"{prop}-{os.getpid()}")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    reports, errors, viols, audits = [], [], [], []
    known = known_keys(prop)
    samples = []
    try:
        for eng, plan in cfg["engines"].items():
            runs, limit = plan[tier]
            r = Runner(eng)
            r.tmp = tmp
            r.env["SIM_KNOWN"] = ",".join(known)
            t = time.time()
            res = r.explore(prop, seed, plan.get("first", 0), runs, tier, limit, tmp)
            res["wall"] = time.time() - t
            res["engine"] = eng
            res["build_s"] = r.build_s
            res["compiled"] = r.compiled
            reports.append(res)
            errors += res["errors"]
            # samples and determinism audit: regenerate some runs in fresh processes
            if not [v for v in res["viols"] if v["cls"] not in known]:
                n = 0
                for k in range(cfg.get("audit", 6)):
                    idx = plan.get("first", 0) + (k * 7919 + 3) % max(1, runs)
                    g = subprocess.run(r.cmd + ["gen", prop, str(seed), str(idx)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=r.env)
                    a, b = r.replay(prop, g.stdout), r.replay(prop, g.stdout)
                    audits.append((eng, idx, a[:2] == b[:2] and (a[0] is None or a[0] in known), a[1]))
                    if n < 2:
                        n += 1
                        samples.append(dict(engine=eng, run=idx, plan=g.stdout.decode(errors="replace")[:1500], trace=a[1]))
            # every violation: confirm twice, minimise, confirm again
            seen = set()
            for v in sorted(res["viols"], key=lambda v: v["idx"]):
                if v["cls"] in seen or (v["cls"] not in known and len([x for x in viols if not x.get("known")]) >= MAXVIOL):
                    continue
                text = build.read(v["file"])
                a, b = r.replay(prop, text), r.replay(prop, text)
                if a[0] != v["cls"] or b[0] != v["cls"]:
                    errors.append(f"run {v['idx']} of {eng} does not replay: {v['cls']} {v['trace']} / {a[:3]} / {b[:3]}")
                    continue
                seen.add(v["cls"])
                if v["cls"] in known:
                    v["known"] = True
                    viols.append(v)
                    continue
                small, tried = minimise(r, prop, text, v["cls"], 20 if tier == "quick" else 120)
                c = r.replay(prop, small)
                if c[0] != v["cls"]:
                    small, c = text, a
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                path = os.path.join(HERE, "replays", f"{prop}-{eng}-{seed}-{v['idx']}.plan")
                head = (f"# property={prop} engine={eng} seed={seed} run={v['idx']} class={v['cls']} trace={c[1]}\n"
                        f"# {c[2][:600]}\n# minimised with {tried} replays; replay: bash run.sh --replay {path}\n")
                with open(path, "wb") as f:
                    f.write(head.encode() + small)
                v.update(replay=path, trace=c[1], msg=c[2])
                viols.append(v)
            if [v for v in viols if not v.get("known")]:
                break
    except build.BuildError as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    new = [v for v in viols if not v.get("known")]
    wall = time.time() - t0
    write_evidence(prop, tier, seed, cfg, reports, viols, errors, audits, samples, wall)
    for k in {v["cls"] for v in viols if v.get("known")}:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    for res in reports:
        print(f"{prop} {res['engine']}: {res['runs']} runs, {len(res['traces'])} distinct non-trivial traces, "
              f"{res['wall']:.1f} s (build {res['build_s']:.1f} s, {res['compiled']} compiled)")
    if new:
        for v in new:
            print(f"  {v['cls']}: {v['msg'][:600]}")
        for v in new:
            print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    if errors:
        for e in errors[:8]:
            print("ERROR", e)
        return 2
    return 0


def write_evidence(prop, tier, seed, cfg, reports, viols, errors, audits, samples, wall):
    total = sum(r["runs"] for r in reports)
    traces = set()
    stats = {}
    for r in reports:
        traces |= {r["engine"].replace("fast", "") + t for t in r["traces"]}
        for k, v in r["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max:") else stats.get(k, 0) + v
    search = sum(r["wall"] for r in reports) or 1e-9
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"), wall_s=round(wall, 3), coverage=dict(
        evaluations=total,
        distinct_nontrivial=len(traces),
        rule=cfg["rule"],
        samples=samples[:4] or [dict(run=v["idx"], cls=v["cls"], msg=v["msg"]) for v in viols[:4]],
        runs_per_hour=int(total / search * 3600),
        seeds_per_hour=int(total / search * 3600),
        seeds_note="one run seed per run, derived from VERIF_SEED, the property and the run's number",
        simulated_time={k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))},
        simulated_time_note=cfg.get("time_note", "steps: basic blocks of the code under test executed on the simulated clock"),
        fault_kinds_injected=faults,
        probes=probes,
        distinct_measure=cfg.get("measure", "distinct hashes of the complete recorded trace of a run in which at least one fault or switch fired"),
        real_components=sorted({c for e in cfg["engines"] for c in ENGINE_INFO[e]["real"]}),
        stub_components=sorted({c for e in cfg["engines"] for c in ENGINE_INFO[e]["stub"]}),
        engines=[dict(engine=r["engine"], runs=r["runs"], planned=r["planned"], search_s=round(r["wall"], 2), build_s=round(r["build_s"], 2)) for r in reports],
        workers=WORKERS,
        determinism_audit=dict(replayed_twice=len(audits), differing=sum(not a[2] for a in audits)),
        violations=[dict(cls=v["cls"], run=v["idx"], known=bool(v.get("known")), replay=v.get("replay")) for v in viols],
        machinery_errors=errors[:10]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def replay_file(path):
    text = build.read(path)
    m = re.search(rb"# property=(\S+) engine=(\S+) seed=(\d+) run=(\d+) class=(\S+) trace=(\w*)", text)
    if not m:
        print("not a replay file")
        return 2
    prop, eng, cls, trace = m[1].decode(), m[2].decode(), m[5].decode(), m[6].decode()
    r = Runner(eng)
    r.tmp = os.path.join(HERE, "build", "tmp")
    os.makedirs(r.tmp, exist_ok=True)
    c = r.replay(prop, text, verbose=True)
    print(c[3])
    if c[0] == cls:
        print(f"reproduced, trace {'identical' if c[1] == trace else 'differs: ' + trace + ' recorded'}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("not reproduced" if c[0] is None else f"different: {c[0]}")
    return 0 if c[0] is None else 2


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_file(os.path.abspath(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if prop not in PROPS:
        print("no check for", prop)
        return 2
    return check(prop, tier)


if __name__ == "__main__":
    sys.exit(main())
