"""Builds the simulators from /repo's working tree.

Objects are kept under /verif/build, keyed by the content of everything that goes into them, so an
unchanged file is not compiled twice and a changed one always is."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def headers():
    """Digest of every header of the repository that the sources may include."""
    fs = []
    for d in ("libhext/include", "libhext/src", "htmlext"):
        for ext in ("h", "hpp", "hh", "inc", "ipp"):
            fs += glob.glob(f"{REPO}/{d}/**/*.{ext}", recursive=True)
    return sha(*[x for f in sorted(fs) for x in (f, read(f))])


def sim_headers():
    fs = sorted(glob.glob(f"{SIM}/*.hpp"))
    return sha(*[x for f in fs for x in (f, read(f))])


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(f"{what}: {' '.join(cmd)}\n{p.stdout[-6000:]}")
    return p.stdout


class Builder:
    def __init__(self):
        self.jobs = []
        self.hdr = headers()
        self.simhdr = sim_headers()
        self.compiled = 0
        os.makedirs(OUT + "/obj", exist_ok=True)
        os.makedirs(OUT + "/gen", exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(os.cpu_count() or 8)
        self.futures = {}

    def versions(self):
        """configure_file() of the two Version.cpp.in templates."""
        out = []
        for name, cm, src in (("libhext", f"{REPO}/libhext/CMakeLists.txt", f"{REPO}/libhext/src/Version.cpp.in"),
                              ("htmlext", f"{REPO}/CMakeLists.txt", f"{REPO}/htmlext/htmlext/Version.cpp.in")):
            if not os.path.exists(src):
                out.append(None)
                continue
            t = read(cm).decode()
            m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", t, re.S)
            v = (m.group(1) if m else "0.0.0").split(".") + ["0", "0", "0"]
            s = read(src).decode()
            full = m.group(1) if m else "0.0.0"
            proj = re.search(r"project\s*\(\s*\"?(\w+)", t)
            for k, val in (("VERSION_MAJOR", v[0]), ("VERSION_MINOR", v[1]), ("VERSION_PATCH", v[2]), ("VERSION_TWEAK", ""), ("VERSION", full)):
                s = re.sub(r"@\w+_" + k + "@", val, s)
            s = re.sub(r"@(\w+)@", "0", s)
            dst = f"{OUT}/gen/{name}-Version-{sha(s)}.cpp"
            if not os.path.exists(dst):
                tmp = f"{dst}.{os.getpid()}"
                open(tmp, "w").write(s)
                os.replace(tmp, dst)
            out.append(dst)
        return out

    def obj(self, cc, src, flags, extra=""):
        """Schedules a compilation, returns the path of the object."""
        key = sha(cc, read(src), " ".join(flags), self.hdr, self.simhdr if src.startswith(SIM) else "", extra, src if "/gen/" not in src else "")
        o = f"{OUT}/obj/{os.path.basename(src)}-{key}.o"
        if o not in self.futures and not os.path.exists(o):
            def job():
                tmp = f"{o}.{os.getpid()}.tmp"
                run([cc, *flags, "-c", src, "-o", tmp], "compile")
                os.replace(tmp, o)
                self.compiled += 1
            self.futures[o] = self.pool.submit(job)
        return o

    def wait(self):
        errs = []
        for f in self.futures.values():
            try:
                f.result()
            except BuildError as e:
                errs.append(e)
        if errs:
            raise errs[0]

    def link(self, cc, objs, flags, name):
        self.wait()
        key = sha(cc, " ".join(sorted(objs)), " ".join(flags), self.simhdr)
        exe = f"{OUT}/bin/{name}-{key}"
        if not os.path.exists(exe):
            os.makedirs(OUT + "/bin", exist_ok=True)
            tmp = f"{exe}.{os.getpid()}.tmp"
            run([cc, *objs, *flags, "-o", tmp], "link")
            os.replace(tmp, exe)
        return exe

    def lib_sources(self):
        return sorted(f for f in glob.glob(f"{REPO}/libhext/src/**/*.cpp", recursive=True)) + [x for x in self.versions()[:1] if x]

    def cli_sources(self):
        return sorted(glob.glob(f"{REPO}/htmlext/htmlext/**/*.cpp", recursive=True)) + [x for x in self.versions()[1:] if x]


INC = [f"-I{REPO}/libhext/include", f"-I{REPO}/libhext/src", f"-I{REPO}/htmlext"]
STD = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", f"-fsanitize-ignorelist={SIM}/ubsan-ignore.txt"]
COV = ["-fsanitize-coverage=trace-pc-guard"]


def cli(b):
    lib = [b.obj("clang++", s, STD + INC + SAN + COV + ["-O1"]) for s in b.lib_sources()]
    prog = [b.obj("clang++", s, STD + INC + SAN + COV + ["-O1", "-Dmain=htmlext_main"]) for s in b.cli_sources() + [f"{REPO}/htmlext/main.cpp"]]
    sim = [b.obj("clang++", f"{SIM}/clisim.cpp", STD + INC + ["-O1"])]
    return b.link("clang++", sim + lib + prog, ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-lgumbo", "-lboost_program_options"], "clisim")


def clifast(b):
    """The same simulator without sanitizers: several times as many runs per second."""
    flags = ["-O1", "-D_GLIBCXX_ASSERTIONS"]
    lib = [b.obj("clang++", s, STD + INC + COV + flags) for s in b.lib_sources()]
    prog = [b.obj("clang++", s, STD + INC + COV + flags + ["-Dmain=htmlext_main"]) for s in b.cli_sources() + [f"{REPO}/htmlext/main.cpp"]]
    sim = [b.obj("clang++", f"{SIM}/clisim.cpp", STD + INC + ["-O1", "-DSIM_MALLOC"])]
    return b.link("clang++", sim + lib + prog, ["-lgumbo", "-lboost_program_options"], "clifast")


NOCACHE = ["-DBOOST_REGEX_MAX_CACHE_BLOCKS=0"]


def mem(b):
    lib = [b.obj("clang++", s, STD + INC + SAN + COV + NOCACHE + ["-O1", "-fno-optimize-sibling-calls"]) for s in b.lib_sources()]
    sim = [b.obj("clang++", f"{SIM}/memsim.cpp", STD + INC + NOCACHE + ["-O1", "-fsanitize=address"])]
    return b.link("clang++", sim + lib, ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-lgumbo"], "memsim")


def thr(b):
    """libhext instrumented for the thread simulator; its objects come first, so that the linker keeps
    their instrumented copies of inline functions."""
    ins = ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    lib = [b.obj("clang++", s, STD + INC + ins) for s in b.lib_sources()]
    sim = [b.obj("clang++", f"{SIM}/tsim.cpp", STD + INC + ["-O1"]), b.obj("clang++", f"{SIM}/trt.cpp", STD + ["-O2"])]
    return b.link("clang++", lib + sim, ["-rdynamic", "-lgumbo", "-lpthread", "-ldl"], "thrsim")


# ---- bindings ---------------------------------------------------------------------------------------
BIND = f"{SIM}/bind"
NODE_ADDON_API = "/opt/veriftools/node/node_modules/node-addon-api"


def out1(*cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p.stdout.split()


def wraps(path, pat):
    return ["-Wl,--wrap=" + n for n in sorted(set(re.findall(pat, read(path).decode(), re.M)))]


def bind(b, lang):
    """libhext and the binding's wrapper classes as a shared library, the extension, the preloaded
    allocator, the interpreter where it is ours, and the driver: all in one directory."""
    bdir = f"{REPO}/libhext/bindings"
    parts = []
    for f in sorted(glob.glob(f"{bdir}/**/*", recursive=True)) + sorted(glob.glob(f"{BIND}/*")):
        if os.path.isfile(f) and not f.endswith((".md", ".txt", ".html", ".hext")) and "/test/" not in f:
            parts += [f[len(REPO):] if f.startswith(REPO) else f, read(f)]
    tag = sha(*parts)
    inc = INC + [f"-I{bdir}", f"-I{bdir}/wrapper"]
    pic = ["-fPIC", "-O1", "-fexceptions", *NOCACHE]
    lib = [b.obj("clang++", s, STD + INC + pic) for s in b.lib_sources()]
    wrapper = [] if lang == "nd" else [b.obj("clang++", s, STD + inc + pic, tag) for s in sorted(glob.glob(f"{bdir}/wrapper/*.cpp"))]
    drv = [b.obj("clang++", f"{SIM}/bindsim.cpp", STD + INC + ["-O1"])]
    so = lambda f, *a: b.obj("g++", f, ["-std=c++17", "-fPIC", "-O1", "-g1", "-w", *a], tag)
    objs, libs, wrap = [], [], []
    pre = so(f"{BIND}/pre.cpp", "-fno-builtin-malloc")
    if lang == "nd":
        src = f"{bdir}/nodejs/src"
        inc = INC + [f"-I{src}", "-I/usr/include/node", f"-I{NODE_ADDON_API}", "-DNAPI_VERSION=8", "-DBUILDING_NODE_EXTENSION"]
        objs = [b.obj("clang++", s, STD + inc + pic, tag) for s in sorted(glob.glob(f"{src}/*.cpp"))]
        sim = so(f"{BIND}/nd.cpp", "-I/usr/include/node", "-DNAPI_VERSION=8")
        wrap = wraps(f"{BIND}/nd.cpp", r"^W\d\((\w+)")
    else:
        opt, header, extra = {"py": ("-python", "py", []), "rb": ("-ruby", "rb", []), "php": ("-php7", "php", [])}[lang]
        gen = f"{OUT}/gen/{lang}-{tag}"
        cxx = f"{gen}/hext_wrap.cpp"
        if not os.path.exists(cxx):
            tmp = f"{gen}.{os.getpid()}"
            os.makedirs(tmp, exist_ok=True)
            open(f"{tmp}/hext.i", "w").write(read(f"{BIND}/{header}.i.in").decode().replace("BINDINGS", bdir))
            run(["swig", "-c++", opt, f"-I{bdir}", f"-I{BIND}", "-outdir", tmp, "-o", f"{tmp}/hext_wrap.cpp", f"{tmp}/hext.i"], "swig")
            if not os.path.isdir(gen):
                os.rename(tmp, gen)
        if lang == "py":
            flags = ["-I/usr/include/python3.12"]
        elif lang == "rb":
            flags = ["-I/usr/include/ruby-3.2.0", "-I/usr/include/x86_64-linux-gnu/ruby-3.2.0"]
            libs = ["-lruby-3.2"]
            wrap = wraps(f"{BIND}/rb.cpp", r"^W\d\(\w+, (\w+)")
        else:
            flags = out1("php-config", "--includes")
        objs = [b.obj("g++", cxx, ["-std=c++17", "-g1", "-w", "-fPIC", "-O1", f"-I{gen}", *inc, *flags], tag)]
        sim = so(f"{BIND}/rb.cpp", *flags) if lang == "rb" else so(f"{BIND}/pymain.cpp", *flags) if lang == "py" else None
    b.wait()
    key = sha(tag, lang, *sorted(lib + wrapper + drv + objs + [pre, sim or ""]), read(__file__))
    d = f"{OUT}/bin/bind-{lang}-{key}"
    if not os.path.exists(d):
        t = f"{d}.{os.getpid()}.tmp"
        os.makedirs(t)
        run(["g++", "-shared", pre, "-Wl,-soname,pre.so", "-o", f"{t}/pre.so"], "link")
        # php opens its extensions with RTLD_DEEPBIND: the allocator has to be their first dependency
        alloc = [f"-L{t}", "-Wl,--no-as-needed", "-l:pre.so", "-Wl,-rpath,$ORIGIN"]
        run(["clang++", "-shared", *lib, *wrapper, *alloc, "-lgumbo", "-Wl,-soname,libhextsim.so", "-o", f"{t}/libhextsim.so"], "link")
        end = [*alloc, "-lhextsim", "-lgumbo", "-Wl,-rpath,$ORIGIN"]
        und = ["-Wl,--unresolved-symbols=ignore-all"]
        if lang == "py":
            run(["g++", "-shared", *objs, *end, *und, "-o", f"{t}/_hext.so"], "link")
            run(["g++", sim, *alloc, "-lpython3.12", "-o", f"{t}/simpython"], "link")
            run(["cp", f"{OUT}/gen/py-{tag}/hext.py", t], "copy")
        elif lang == "rb":
            run(["g++", "-shared", *objs, sim, *end, *und, *libs, *wrap, "-o", f"{t}/hext.so"], "link")
        elif lang == "php":
            run(["g++", "-shared", *objs, *end, *und, "-o", f"{t}/hext.so"], "link")
        else:
            js = []
            for o in objs:
                c = f"{t}/{os.path.basename(o)}"
                run(["objcopy", "--redefine-sym", "napi_register_module_v1=hext_register", o, c], "objcopy")
                js.append(c)
            run(["g++", "-shared", *js, sim, *end, *und, *wrap, "-o", f"{t}/hext.node"], "link")
            for c in js:
                os.remove(c)
        run(["clang++", *drv, f"-L{t}", "-lhextsim", "-lgumbo", "-Wl,-rpath,$ORIGIN", "-Wl,--unresolved-symbols=ignore-in-shared-libs", "-o", f"{t}/bindsim"], "link")
        run(["cp", f"{BIND}/run.{ {'py': 'py', 'rb': 'rb', 'php': 'php', 'nd': 'js'}[lang]}", t], "copy")
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
    tmp = f"{OUT}/tmp"
    os.makedirs(tmp, exist_ok=True)
    return ["/usr/bin/env", f"BIND_LANG={lang}", f"BIND_DIR={d}", f"BIND_TMP={tmp}", f"{d}/bindsim"]


ENGINES = {"bpy": lambda b: bind(b, "py"), "brb": lambda b: bind(b, "rb"), "bphp": lambda b: bind(b, "php"), "bnd": lambda b: bind(b, "nd"), "thr": thr, "mem": mem, "cli": cli, "clifast": clifast}


def engine(name):
    b = Builder()
    t = time.time()
    exe = ENGINES[name](b)
    return exe, time.time() - t, b.compiled


def prune():
    """Drops objects no build has used for long (disk space)."""
    now = time.time()
    for d in ("obj", "bin", "gen"):
        for f in glob.glob(f"{OUT}/{d}/*"):
            try:
                if now - os.path.getmtime(f) > 86400:
                    if os.path.isfile(f):
                        os.remove(f)
                    elif os.path.isdir(f):
                        shutil.rmtree(f, ignore_errors=True)
            except OSError:
                pass


if __name__ == "__main__":
    for n in sys.argv[1:] or list(ENGINES):
        try:
            exe, dt, n2 = engine(n)
            print(f"{n}: {exe} ({dt:.1f} s, {n2} files compiled)")
        except BuildError as e:
            print(e)
            sys.exit(2)
