#!/usr/bin/env python3
"""Builds /repo's working tree and the harnesses with a sanitizer, caching objects by the content of everything they
include.   build.py VARIANT TARGET...   VARIANT: asan | tsan | sql (asan, with the parts that need sqlite_orm, on the stand-in
in harness/shim)   TARGET: simhost | probe | wshost | replayhost"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, sysconfig, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/clang++-18"
BASE = ("-std=c++20 -DASIO_STANDALONE -DFMT_CONSTEVAL= -DPERF_COUNT -w -fPIC -pthread -D_GLIBCXX_ASSERTIONS "
        "-fno-omit-frame-pointer -g1").split()
for h in ("algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set "
          "vector").split():
    BASE += ["-include", h]
VARIANTS = {
    "asan": ["-O1", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr,function,pointer-overflow,alignment", "-fno-sanitize-recover=undefined"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
VARIANTS["sql"] = VARIANTS["asan"]
LIB = ["db", "symbol", "server", "debug", "proto", "eval", "rtl", "scheduler", "monitor", "sim", "namespace", "util", "log",
       "thread", "perf"]

REPLAY = ["vcd_db", "vpi", "engine"]
JITTER = ("simhost", "wshost")


class BuildError(Exception):
    pass


def sha(path, _cache={}):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        with open(path, "rb") as f:
            _cache[key] = hashlib.sha1(f.read()).hexdigest()
    return _cache[key]


def write_if_changed(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(data)


def prepare():
    """the overlay without sqlite_orm, and the generated schema header"""
    tmp = os.path.join(BUILD, "overlay.tmp")
    ov = os.path.join(BUILD, "overlay")
    subprocess.run(["rm", "-rf", tmp], check=True)
    r = subprocess.run(["/usr/bin/python3", "/opt/vp/cmake/overlay.py", REPO, tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("overlay failed: " + r.stdout + r.stderr)
    for d, _, files in os.walk(tmp):
        for f in files:
            p = os.path.join(d, f)
            with open(p) as fh:
                write_if_changed(os.path.join(ov, os.path.relpath(p, tmp)), fh.read())
    subprocess.run(["rm", "-rf", tmp], check=True)
    with open(os.path.join(REPO, "include/schema.json")) as f:
        schema = f.read()
    with open(os.path.join(REPO, "src/jschema.hh.in")) as f:
        tmpl = f.read()
    write_if_changed(os.path.join(BUILD, "gen/jschema.hh"), tmpl.replace("${JSON_SCHEMA}", schema).replace("@JSON_SCHEMA@", schema))
    return ov


def compile_one(src, obj, flags):
    meta = obj + ".json"
    try:
        with open(meta) as f:
            m = json.load(f)
        if m["flags"] == flags and m["src"] == src and os.path.exists(obj) and all(
                os.path.exists(p) and sha(p) == h for p, h in m["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    dep = obj + ".d"
    r = subprocess.run([CXX, *flags, "-MD", "-MF", dep, "-c", src, "-o", obj], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"{src} does not compile:\n{r.stderr[-6000:]}")
    with open(dep) as f:
        text = f.read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    with open(meta, "w") as f:
        json.dump({"flags": flags, "src": src, "deps": {p: sha(p) for p in deps}}, f)
    return True


def build_module(variant):
    """the compiled part of the Python bindings, on stand-ins for pybind11 and sqlite_orm"""
    out = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(out, exist_ok=True)
        obj, so = f"{out}/_hgdb.o", f"{out}/_hgdb.so"
        n = compile_one(f"{REPO}/bindings/python/src/_hgdb.cc", obj,
                        BASE + VARIANTS[variant] + [f"-I{VERIF}/harness/shim", f"-I{REPO}/include", "-I" + sysconfig.get_path("include")])
        if n or not os.path.exists(so):
            r = subprocess.run([CXX, *VARIANTS[variant], "-shared", "-pthread", obj, "-o", so + ".tmp", "-lsqlite3"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link failed:\n" + r.stderr[-6000:])
            os.replace(so + ".tmp", so)
    return so


def build_rewrite(variant):
    """hgdb-rewrite-vcd, on stand-ins for argparse and sqlite_orm"""
    out = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(out, exist_ok=True)
        flags = BASE + VARIANTS[variant] + [f"-I{VERIF}/harness/shim", f"-I{REPO}/include", f"-I{REPO}/tools/vcd", "-DVERSION_NUMBER=0"]
        d = f"{REPO}/tools/hgdb-rewrite-vcd"
        srcs = [f"{d}/{f}" for f in sorted(os.listdir(d)) if f.endswith(".cc")] + [f"{REPO}/tools/vcd/vcd.cc"]
        objs = [f"{out}/w_{os.path.basename(s)[:-3]}.o" for s in srcs]
        with cf.ThreadPoolExecutor(4) as ex:
            n = sum(ex.map(lambda so: compile_one(so[0], so[1], flags), zip(srcs, objs)))
        exe = f"{out}/rewrite"
        if n or not os.path.exists(exe):
            r = subprocess.run([CXX, *VARIANTS[variant], "-pthread", *objs, "-o", exe + ".tmp", "-lfmt", "-lsqlite3"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("link failed:\n" + r.stderr[-6000:])
            os.replace(exe + ".tmp", exe)
    return exe


def build(variant, targets, quiet=False):
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    if targets == ["_hgdb"]:
        return {"_hgdb": build_module(variant)}
    if targets == ["rewrite"]:
        return {"rewrite": build_rewrite(variant)}
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ov = prepare()
        out = os.path.join(BUILD, variant)
        os.makedirs(out, exist_ok=True)
        sql = variant == "sql"
        flags = BASE + VARIANTS[variant] + ([f"-I{VERIF}/harness/shim", f"-I{REPO}/tools/hgdb-replay"] if sql else
                                            ["-I" + ov + "/include", "-I" + ov + "/src"]) + ["-I/usr/share/verilator/include/vltstd",
                                            f"-I{REPO}/include", f"-I{BUILD}/gen", f"-I{REPO}/src", f"-I{REPO}/tools/vcd"]
        jobs = []
        if any(t != "vcdonly" for t in targets):
            for n in LIB:
                src = f"{ov}/src/{n}.cc" if n in ("db", "symbol") and not sql else f"{REPO}/src/{n}.cc"
                # the overlaid files sit outside src/, where their own headers are
                jobs.append((src, f"{out}/{n}.o"))
        # any further source of the library (a refactoring may add files)
        known = {f"{REPO}/src/{n}.cc" for n in LIB}
        extra = sorted(p for p in (os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")))
                       if p.endswith(".cc") and p not in known)
        libobjs = [f"{out}/{n}.o" for n in LIB]
        with open(os.path.join(REPO, "src/CMakeLists.txt")) as f:
            cm = f.read()
        for p in extra:
            if os.path.basename(p) in cm:
                o = f"{out}/x_{os.path.basename(p)[:-3]}.o"
                jobs.append((p, o))
                libobjs.append(o)
        jobs.append((f"{VERIF}/harness/vpi_dummy.cc", f"{out}/h_vpi_dummy.o"))
        for t in targets:
            jobs.append((f"{VERIF}/harness/{t}.cc", f"{out}/h_{t}.o"))
            if t in JITTER:
                jobs.append((f"{VERIF}/harness/jitter.cc", f"{out}/h_jitter.o"))
        if "probe" in targets or "replayhost" in targets:
            jobs.append((f"{REPO}/tools/vcd/vcd.cc", f"{out}/vcd.o"))
        if "replayhost" in targets:
            for n in REPLAY:
                jobs.append((f"{REPO}/tools/hgdb-replay/{n}.cc", f"{out}/r_{n}.o"))
        # longest first
        prio = {"db": 0, "symbol": 1, "server": 2, "debug": 3, "h_probe": 1, "h_simhost": 2, "proto": 3, "eval": 4}
        jobs.sort(key=lambda j: prio.get(os.path.basename(j[1])[:-2], 9))
        with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
            futs = [ex.submit(compile_one, s, o, flags) for s, o in jobs]
            n = 0
            err = None
            for f in futs:
                try:
                    n += f.result()
                except BuildError as e:
                    err = err or e
            if err:
                raise err
        bins = {}
        for t in targets:
            objs = libobjs + [f"{out}/h_vpi_dummy.o", f"{out}/h_{t}.o"] + ([f"{out}/vcd.o"] if t in ("probe", "replayhost") else []) + (
                [f"{out}/r_{n}.o" for n in REPLAY] if t == "replayhost" else []) + ([f"{out}/h_jitter.o"] if t in JITTER else [])
            exe = f"{out}/{t}"
            if not os.path.exists(exe) or any(os.path.getmtime(o) > os.path.getmtime(exe) for o in objs):
                r = subprocess.run([CXX, *VARIANTS[variant], "-pthread", *objs, "-o", exe + ".tmp", "-lfmt", *(["-lsqlite3"] if sql else [])],
                                   capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("link failed:\n" + r.stderr[-6000:])
                os.replace(exe + ".tmp", exe)
            bins[t] = exe
    if not quiet:
        print(f"built {variant} {targets}: {n} objects compiled in {time.time()-t0:.1f} s", file=sys.stderr)
    return bins


if __name__ == "__main__":
    try:
        build(sys.argv[1], sys.argv[2:])
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
