"""C28: debugging a recorded waveform (hgdb-replay) is debugging the simulation it records"""
import json, os, random, tempfile
import design as D
import e2e
import scen as S
from host import Violation, SimHost, HarnessError
from probe import Probe
from ctx import *

vpiModule, vpiNet, vpiName, vpiFullName, vpiType, vpiSize = 32, 36, 2, 3, 1, 4


def code(i):
    """VCD identifier codes"""
    s = ""
    while True:
        s += chr(33 + i % 94)
        i //= 94
        if not i:
            return s


def bits(v, w, rng=None):
    """a value as it may be dumped: leading zeros may be left out"""
    b = format(v, "b").zfill(w)
    if rng is not None and rng.random() < 0.5:
        b = b.lstrip("0") or "0"
    return b


# ------------------------------------------------------------------ the database and the provider, asked directly
class Wave:
    """a random hierarchy with values: what the file says, and the file"""

    def __init__(self, rng):
        self.rng = rng
        self.mods = []         # [full name, name, parent index, [var index]]
        self.vars = []         # [full name, name, module index, width, code index, array dims or None]
        self.codes = []        # width per code
        self.arrays = []       # (var index, dims, element width)
        lines = []
        if rng.random() < 0.5:
            lines.append("$date today $end\n$version x $end\n$timescale 1ns $end")

        def scope(parent, d, name):
            full = (self.mods[parent][0] + "." if parent is not None else "") + name
            me = len(self.mods)
            self.mods.append([full, name, parent, []])
            lines.append(f"$scope {rng.choice(['module', 'module', 'begin'])} {name} $end")
            names = rng.sample(["clk", "a", "b", "data", "top", "q0", "x_1", "w", "sel"], rng.randrange(0, 6))
            subs = rng.sample(["top", "dut", "u0", "u1", "tb", "g"], rng.randrange(0, 4 if d < 3 else 1))
            names = [n for n in names if n not in subs]
            late = []
            for n in names:
                if rng.random() < 0.3:
                    late.append(n)
                else:
                    var(me, n)
            for n in subs:
                scope(me, d + 1, n)
            for n in late:
                var(me, n)
            lines.append("$upscope $end")

        def var(me, n):
            dims = None
            if rng.random() < 0.2 and n not in ("clk", "top"):
                dims = [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([1, 1, 2]))]
                ew = rng.choice([1, 2, 4, 5, 8, 33])
                w = ew
                for x in dims:
                    w *= x
                self.arrays.append((len(self.vars), dims, ew))
            else:
                w = rng.choice([1, 1, 1, 2, 4, 8, 31, 32, 33, 64, 65, 130])
            same = [i for i, x in enumerate(self.codes) if x == w]
            if same and rng.random() < 0.3:
                c = rng.choice(same)
            else:
                c = len(self.codes)
                self.codes.append(w)
            full = self.mods[me][0] + "." + n
            self.mods[me][3].append(len(self.vars))
            self.vars.append([full, n, me, w, c, dims])
            sl = f" [{w - 1}:0]" if w > 1 and rng.random() < 0.8 else ""
            lines.append(f"$var {rng.choice(['wire', 'reg'])} {w} {code(c)} {n}{sl} $end")

        roots = rng.sample(["tb", "top", "TOP", "u0"], rng.choice([1, 1, 2]))
        for r in roots:
            scope(None, 0, r)
        lines.append("$enddefinitions $end")
        self.changes = {c: [] for c in range(len(self.codes))}
        t = rng.choice([0, 0, 0, 3, 100])
        self.times = [t]
        silent = {c for c in self.changes if rng.random() < 0.1}
        for k in range(rng.choice([1, 3, 10, 30])):
            lines.append(f"#{t}")
            dump = rng.random() < (0.5 if k == 0 else 0.05)
            if dump:
                lines.append(rng.choice(["$dumpvars", "$dumpall"]))
            for c in self.changes:
                if c in silent or (not dump and rng.random() > 0.3):
                    continue
                for _ in range(1 if rng.random() < 0.95 else 2):
                    v = self.value(self.codes[c])
                    if self.codes[c] == 1 and rng.random() < 0.9:
                        lines.append(v + code(c))
                    else:
                        lines.append(f"b{v} {code(c)}")
                    if self.changes[c] and self.changes[c][-1][0] == t:
                        self.changes[c].pop()
                    self.changes[c].append((t, v))
            if dump:
                lines.append("$end")
            t += rng.choice([1, 1, 2, 5, 10, 1000, 1 << 33])
            self.times.append(t)
        self.text = "\n".join(lines) + "\n"

    def value(self, w):
        rng = self.rng
        k = rng.random()
        if k < 0.8:
            return bits(rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w)]) & ((1 << w) - 1), w, rng)
        if k < 0.9:
            return rng.choice("xz")
        return "".join(rng.choice("01xz") for _ in range(w))

    def at(self, c, t):
        r = None
        for time, v in self.changes[c]:
            if time <= t:
                r = v
        return r


def extend(v, w):
    return ("0" if v[0] in "01" else v[0]) * (w - len(v)) + v


def integer(b):
    if "x" in b or "z" in b:
        return 0
    v = int(b, 2) & 0xFFFFFFFF
    return v - (1 << 32) if v >= 1 << 31 else v


def hexa(b):
    out = ""
    while b:
        n, b = b[-4:], b[:-4]
        s = set(n)
        out = ("x" if s == {"x"} else "X" if "x" in s else "z" if s == {"z"} else "Z" if "z" in s else "%X" % int(n, 2)) + out
    return out


class Replay(Probe):
    """replayhost in query mode"""

    def __init__(self, exe, path):
        import subprocess
        from host import child_env
        self.timeout = 30.0
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe, path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=child_env(), start_new_session=True)
        self.buf = b""
        self.n = 0
        self.recv("reading the waveform")

    def q(self, q, **kw):
        self.n += 1
        self.send(q=q, **kw)
        return self.recv(f"{q} {kw}")["r"]


def queries(case, cfg):
    rng = random.Random(case)
    W = Wave(rng)
    d = tempfile.mkdtemp(prefix="replay.")
    stats = {}
    try:
        vcd = os.path.join(d, "wave.vcd")
        with open(vcd, "w") as f:
            f.write(W.text)
        argv = ["+A" * rng.randrange(1, 12) for _ in range(rng.randrange(0, 20))]
        store = rng.random() < 0.2
        path = os.path.join(d, "cfg.json")
        with open(path, "w") as f:
            json.dump({"vcd": vcd, "query": True, "argv": argv, "store": store}, f)
        n = 0
        for again in range(2 if store else 1):
            R = Replay(cfg["exe"], path)
            try:
                judge(rng, W, R, argv, vcd)
                n += R.n
            finally:
                R.kill()
        return {"n": n, "key": f"{len(W.mods)}/{len(W.vars)}/{len(W.arrays)}/{len(W.times)}/{store}", "mods": len(W.mods), "vars": len(W.vars)}
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def judge(rng, W, R, argv, vcd):
    text = W.text

    def want(what, got, *exp):
        if got not in exp:
            raise Violation(f"waveform: {what} is {got!r} instead of {exp[0]!r}", {"vcd": text[:6000]})
    want("the argument vector", R.q("argv", add=["+more=1", "+x"]), ["hgdb-replay", vcd] + argv + ["+more=1", "+x"])
    # names, both ways
    mid, sid = {}, {}
    for i, (full, name, parent, vs) in enumerate(W.mods):
        mid[i] = R.q("inst_id", name=full)
        if mid[i] is None:
            raise Violation(f"waveform: the instance {full} is not found", {"vcd": text[:6000]})
    for i, (full, name, m, w, c, dims) in enumerate(W.vars):
        sid[i] = R.q("sig_id", name=full)
        if sid[i] is None:
            raise Violation(f"waveform: the signal {full} is not found", {"vcd": text[:6000]})
    if len(set(mid.values())) != len(mid) or len(set(sid.values())) != len(sid):
        raise Violation("waveform: different objects have the same id", {"vcd": text[:6000]})
    known_m, known_s = {m[0] for m in W.mods}, {v[0] for v in W.vars}
    for _ in range(6):
        base = rng.choice(W.mods)[0]
        nm = rng.choice([base + ".nosuch", "nosuch", base[:-1], "", ".", base + "." + rng.choice(W.mods)[1], rng.choice(W.mods)[1], base + "..",
                         rng.choice(W.vars)[1] if W.vars else "q"])
        clean = ".".join(x for x in nm.split(".") if x)
        if clean not in known_m:
            want(f"the instance of {nm!r}", R.q("inst_id", name=nm), None)
        if clean not in known_s:
            want(f"the signal of {nm!r}", R.q("sig_id", name=nm), None)
    for i, (full, name, parent, vs) in enumerate(W.mods):
        want(f"the name of instance {full}", R.q("inst", id=mid[i]), name)
        want(f"the full name of instance {full}", R.q("full_inst", id=mid[i]), full)
        want(f"the signals of {full}", sorted(map(tuple, R.q("sigs", id=mid[i]))), sorted((sid[v], W.vars[v][1], W.vars[v][3]) for v in vs))
        want(f"the instances below {full}", sorted(map(tuple, R.q("kids", id=mid[i]))), sorted((mid[j], m[1]) for j, m in enumerate(W.mods) if m[2] == i))
    for i, (full, name, m, w, c, dims) in enumerate(W.vars):
        want(f"signal {full}", R.q("sig", id=sid[i]), [sid[i], name, w])
        want(f"the full name of signal {full}", R.q("full_sig", id=sid[i]), full)
    # values
    probes = sorted({x for t in W.times for x in (t - 1, t, t + 1) if x >= 0} | {0})
    for i, (full, name, m, w, c, dims) in enumerate(W.vars):
        for t in rng.sample(probes, min(len(probes), 8)):
            want(f"the value of {full} at {t}", R.q("value", id=sid[i], t=t), W.at(c, t))
            want(f"the next change of {full} after {t}", R.q("next", id=sid[i], t=t), min((x for x, _ in W.changes[c] if x > t), default=None))
            v = rng.choice([W.at(c, t) or "1", "1"])
            want(f"the last time {full} becomes {v} before {t}", R.q("prev", id=sid[i], t=t, v=v),
                 max((x for x, y in W.changes[c] if x < t and y == v), default=None))
    # the provider
    names = [m[0] for m in W.mods] + [v[0] for v in W.vars]
    handles = {}

    def handle(n):
        h = R.q("handle", name=n)
        if not h:
            raise Violation(f"replay: there is no handle for {n}", {"vcd": text[:6000]})
        if n in handles and handles[n] != h:
            raise Violation(f"replay: {n} has two handles", {"vcd": text[:6000]})
        handles[n] = h
        return h
    for n in rng.sample(names, min(len(names), 10)):
        handle(n)
    for n in ("nosuch", "nosuch.x", W.mods[0][0] + ".nosuch"):
        want(f"the handle of {n}", R.q("handle", name=n), 0)
    top = R.q("iter", p=vpiModule, h=0)
    want("the number of top instances", len(top), 1)
    want("the top instance", R.q("vstr", p=vpiFullName, h=top[0]), W.mods[0][0])
    for i, (full, name, parent, vs) in enumerate(W.mods):
        h = handle(full)
        want(f"the name of the handle of {full}", R.q("vstr", p=vpiName, h=h), name)
        want(f"the full name of the handle of {full}", R.q("vstr", p=vpiFullName, h=h), full)
        want(f"the type of {full}", R.q("vget", p=vpiType, h=h), vpiModule)
        want(f"the modules iterated below {full}", sorted(R.q("vstr", p=vpiFullName, h=x) for x in R.q("iter", p=vpiModule, h=h)),
             sorted(m[0] for m in W.mods if m[2] == i))
        want(f"the nets iterated below {full}", sorted(R.q("vstr", p=vpiFullName, h=x) for x in R.q("iter", p=vpiNet, h=h)), sorted(W.vars[v][0] for v in vs))
    for i, (full, name, m, w, c, dims) in enumerate(W.vars):
        h = handle(full)
        want(f"the full name of the handle of {full}", R.q("vstr", p=vpiFullName, h=h), full)
        want(f"the name of the handle of {full}", R.q("vstr", p=vpiName, h=h), name)
        want(f"the type of {full}", R.q("vget", p=vpiType, h=h), vpiNet)
        want(f"the size of {full}", R.q("vget", p=vpiSize, h=h), w)

    def value(what, h, raw, w):
        g = R.q("val", h=h)
        if raw is None:
            full_ = "0"
        else:
            full_ = extend(raw, w)
        want(f"the integer value of {what}", g[0], integer(full_))
        ok = {hexa(full_), hexa(full_).lstrip("0") or "0"} | ({hexa(raw)} if raw is not None and len(raw) < w else set())
        if raw is None:
            ok |= {"0" * ((w + 3) // 4)}
        if g[1] not in ok:
            want(f"the hexadecimal value of {what}", g[1], hexa(full_))
        b = {full_, raw or "0"} | ({"0" * w} if raw is None else set())
        if g[2] not in b:
            want(f"the binary value of {what}", g[2], full_)
    for t in rng.sample(probes, min(len(probes), 6)):
        R.q("time", t=t)
        for i in rng.sample(range(len(W.vars)), min(len(W.vars), 6)):
            full, name, m, w, c, dims = W.vars[i]
            value(f"{full} at {t}", handle(full), W.at(c, t), w)
    # arrays are wide buses in a waveform; their shape is that of the names a symbol table uses
    if W.arrays:
        arr = rng.sample(W.arrays, rng.randrange(1, len(W.arrays) + 1))
        nm = []
        elems = []
        for i, dims, ew in arr:
            idx = [[]]
            for x in dims:
                idx = [p + [j] for p in idx for j in range(x)]
            for p in idx:
                sty = rng.choice(["b", "d"])
                nm.append(W.vars[i][0] + "".join(f"[{j}]" if sty == "b" else f".{j}" for j in p))
                elems.append((i, dims, ew, p))
        rng.shuffle(nm)
        R.q("arrays", names=nm)
        if rng.random() < 0.3:
            R.q("arrays", names=nm)
        for t in rng.sample(probes, min(len(probes), 5)):
            R.q("time", t=t)
            for i, dims, ew, p in rng.sample(elems, min(len(elems), 6)):
                full, name, m, w, c, _ = W.vars[i]
                h = handle(full)
                value(f"{full} at {t}", h, W.at(c, t), w)
                for j in p:
                    h = R.q("index", h=h, i=j)
                    if not h:
                        raise Violation(f"replay: there is no element {p} of {full}", {"vcd": text[:6000]})
                byname = R.q("handle", name=full + "".join(f"[{j}]" for j in p))
                want(f"the handle of {full}{p}", byname, h)
                want(f"the size of {full}{p}", R.q("vget", p=vpiSize, h=h), ew)
                k = 0
                for x, j in zip(dims, p):
                    k = k * x + j
                v = W.at(c, t)
                if v is not None:
                    e = extend(v, w)
                    v = e[len(e) - (k + 1) * ew:len(e) - k * ew]
                value(f"{full}{p} at {t}", h, v, ew)
        # beyond the end
        i, dims, ew = arr[0]
        want("an element beyond the end", R.q("index", h=handle(W.vars[i][0]), i=dims[0] + 3), 0)
        want("a negative element", R.q("index", h=handle(W.vars[i][0]), i=-1), 0)
    # released handles may be asked for again
    for n in rng.sample(names, min(len(names), 4)):
        if any(n == W.vars[i][0] for i, _, _ in W.arrays):
            continue
        R.q("release", h=handle(n))
        handles.pop(n)
        h = handle(n)
        want(f"the full name of {n} after its handle was released", R.q("vstr", p=vpiFullName, h=h), n)
        if n in known_s:
            i = next(k for k, v in enumerate(W.vars) if v[0] == n)
            t = rng.choice(probes)
            R.q("time", t=t)
            value(f"{n} at {t} after its handle was released", h, W.at(W.vars[i][4], t), W.vars[i][3])


# ------------------------------------------------------------------ sessions
def hier(rng, T, n_occ, rich=False, tb_depth=None):
    """without definition names the design is the first instance below the test bench"""
    mods, occ = D.hierarchy(rng, T, 1, rich=False, tb_depth=0)
    tb = mods[0]
    tb["children"].sort(key=lambda c: c["def"] != T.top)
    if rng.random() < 0.5:
        top = tb["children"][0]
        top["signals"].append({"name": "clk2", "width": 1})
    return mods, occ


class ReplaySession(S.Session):
    def __init__(self, exe, table, rng, edges):
        self.n_edges = edges
        super().__init__(exe, table, rng, hier=hier, host_cls=lambda *a, **k: self._host(*a, **k), clock_by="name", rewind=True, rich=False,
                         ann=None)
        self.use_hex = True
        # the clocks are given by the waveform
        self.writable = [n for n in self.writable if not n.endswith('.clk2')]

    def _host(self, exe, cfg, **kw):
        """the waveform has to be there first"""
        rng = self.rng
        top = self.modules[0]["children"][0]
        clk2 = any(s["name"] == "clk2" for s in top["signals"])
        if clk2:
            self.T.ann = {"clock": [self.T.top + ".clk", self.T.top + ".clk2"]}
            cfg["flat"] = self.T.to_flat()
        sigs = []

        def walk(m, prefix):
            for s in m["signals"]:
                sigs.append((prefix + m["name"], s["name"], s["width"]))
            for c in m.get("children", []):
                walk(c, prefix + m["name"] + ".")
        walk(self.modules[0], "")
        # identifier codes: all clocks are one net; other signals have one of their own
        codes, widths, net = {}, [], {}
        for mod, n, w in sigs:
            key = n if n in ("clk", "clk2") else mod + "." + n
            if key not in net:
                net[key] = len(widths)
                widths.append(w)
            codes[mod + "." + n] = net[key]
        occ = self.occ[0]
        own = [mod + "." + n for mod, n, w in sigs if n not in ("clk", "clk2") and (mod == occ or mod.startswith(occ + "."))]
        w_of = {mod + "." + n: w for mod, n, w in sigs}
        ev = []       # (time, order, code, value)
        # edges: times and clocks
        gap = rng.choice([lambda: 10, lambda: rng.randrange(2, 9), lambda: rng.randrange(1, 4), lambda: rng.choice([2, 1 << 33])])
        t, self.times, self.by = rng.choice([0, 0, 1, 7]), [], []
        last = {"clk": None, "clk2": None}
        plan = []
        state = {"clk": rng.choice("01x"), "clk2": rng.choice("01x")}
        for c, v in state.items():
            if c in net and rng.random() < 0.9:
                ev.append((0, net[c], v))
            elif v == "1":
                state[c] = "x"
        prev = -1
        for k in range(self.n_edges):
            c = rng.choice(["clk", "clk2"]) if clk2 else "clk"
            lo = t
            t += gap()
            if t == 0:
                t = 1
            if state[c] == "1":
                # it falls first, at any time before (maybe together with the other clock's edge)
                first = max(last[c] + 1 if last[c] is not None else 1, lo if last[c] != lo else lo + 1)
                if t <= first:
                    t = first + 1
                f = rng.randrange(first, t)
                ev.append((f, net[c], "0"))
            ev.append((t, net[c], "1"))
            state[c] = "1"
            last[c] = t
            e = {}
            for n in own:
                if rng.random() < (0.9 if k == 0 else 0.35):
                    v = self.domain0(w_of[n])
                    e[n] = v
                    # after the previous edge (or with it), before this one
                    ev.append((rng.choice([max(lo, 0), t - 1, rng.randrange(max(lo, 0), t)]), codes[n], format(v, "b").zfill(w_of[n])))
            plan.append(e)
            self.times.append(t)
        # what changes with the last edge is never seen
        for n in own:
            if rng.random() < 0.3:
                ev.append((t, codes[n], format(self.domain0(w_of[n]), "b").zfill(w_of[n])))
        if rng.random() < 0.5:
            ev.append((t + 1, net["clk"], "0"))
        init = {codes[n]: "0" * w_of[n] for n in own}
        lines = []

        def defs(m):
            lines.append(f"$scope module {m['name']} $end")
            for s in m["signals"]:
                full = pre[-1] + m["name"] + "." + s["name"]
                lines.append(f"$var wire {s['width']} {code(codes[full])} {s['name']} $end")
            pre.append(pre[-1] + m["name"] + ".")
            for c in m.get("children", []):
                defs(c)
            pre.pop()
            lines.append("$upscope $end")
        pre = [""]
        defs(self.modules[0])
        lines.append("$enddefinitions $end\n#0\n$dumpvars")

        def put(c, v):
            lines.append(v + code(c) if widths[c] == 1 else f"b{v} {code(c)}")
        for c, v in init.items():
            put(c, v)
        lines.append("$end")
        cur = dict(init)
        now = 0
        seen = {}
        for k, (time, c, v) in sorted(enumerate(ev), key=lambda x: (x[1][0], x[0])):
            if time != now:
                if rng.random() < 0.03:
                    # everything once more
                    lines.append("$dumpall")
                    for x, y in cur.items():
                        put(x, y)
                    lines.append("$end")
                lines.append(f"#{time}")
                now = time
            put(c, v)
            cur[c] = v
        cfg = {"flat": cfg["flat"], "argv": cfg["argv"][1:], "modules": self.modules}
        self.wave_plan = plan
        # some start later
        self.skip = 0
        if rng.random() < 0.3 and len(self.times) > 2:
            self.skip = rng.randrange(1, len(self.times))
            cfg["start"] = rng.randrange(self.times[self.skip - 1], self.times[self.skip])
        d = tempfile.mkdtemp(prefix="replay.")
        self.wave_dir = d
        cfg["vcd"] = os.path.join(d, "wave.vcd")
        self.wave_text = "\n".join(lines) + "\n"
        with open(cfg["vcd"], "w") as f:
            f.write(self.wave_text)
        return SimHost(exe, cfg, **kw)

    def domain0(self, w):
        r = self.rng
        return r.choice([0, 0, 1, 1, 2, 3, r.getrandbits(w)]) & ((1 << w) - 1)

    def run(self):
        self.plan = self.wave_plan
        self.target = len(self.plan)
        self.run_mark = 0
        for k in range(self.skip):
            self.edge = k
            self.sim.update(self.plan[k])
            self.snaps.append(dict(self.sim))
        self.edge = self.skip - 1
        self.edge_over = True
        self.target -= self.skip

    def close(self):
        import shutil
        super().close()
        shutil.rmtree(self.wave_dir, ignore_errors=True)


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "many", "never"])
    if kind == "many":
        T = D.flat_table(rng, n_insts=rng.randrange(4, 8), n_stmts=2, order="stmt")
    elif kind == "never":
        T = D.flat_table(rng, cond_p=1.0, n_insts=rng.randrange(1, 3))
    else:
        T = D.flat_table(rng)
    if not T.order:
        return None
    s = ReplaySession(cfg["exe"], T, rng, rng.randrange(3, 14))
    try:
        s.check_frames = True
        s.start()
        if rng.random() < 0.5:
            s.set_hex(False)
        s.run()
        for _ in range(rng.randrange(0, 4)):
            e2e.random_insert(s, rng)
        if rng.random() < 0.3:
            e2e.insert_everything(s, rng)
        s.command(rng.choice(["continue", "step_over"]) if s.entries else "step_over")
        limit = rng.randrange(10, 60)
        w = {"step_over": rng.choice([1, 5]), "continue": rng.choice([0, 1, 4]), "step_back": rng.choice([0, 1, 4]), "reverse": rng.choice([0, 1, 3])}
        back = rng.random() < 0.5
        seen = set()
        while True:
            m = s.wait()
            if m is None:
                s.over()
                break
            s.take(m)
            seen.add((s.edge, s.cur))
            if rng.random() < 0.2:
                e2e.random_eval(s, rng)
            if rng.random() < 0.1:
                e2e.random_edit(s, rng)
            limit -= 1
            if limit <= 0:
                cmd = "continue" if not s.entries or rng.random() < 0.5 else "step_over"
                if limit < -200:
                    for e in list(s.entries):
                        s.req_remove_id(e.bp.id)
                    cmd = "continue"
            else:
                cmd = rng.choices(list(w), [x + 0.05 for x in w.values()])[0]
                if not back:
                    cmd = rng.choice(["step_over", "continue"])
                if cmd == "reverse" and not s.entries:
                    cmd = "step_back"
            if s.mode in ("continue", "step_over") and limit > 0 and rng.random() < 0.06:
                ts = rng.choice(s.times)
                s.jump(rng.choice([ts, ts + 1, max(ts - 1, 0), ts + rng.randrange(30), s.times[s.edge], s.times[s.edge] + 1, 0, 2**40]))
            else:
                s.command(cmd)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": len(s.times) - s.skip, "kind": kind, "key": f"{kind}/{s.skip}/{s.reports}/{len(seen)}"}
    except Violation as e:
        e.detail = {"what": e.detail, "vcd": s.wave_text[:5000], "times": s.times, "skip": s.skip}
        raise
    finally:
        s.close()


def work(case, cfg):
    return queries(case, cfg) if case.startswith("q/") else session(case, cfg)


def run(ctx):
    bins = ctx.build("sql", "replayhost")
    ctx.rule = ("random VCD files (aliased nets, several roots, wide and unknown values, values dumped short, silent signals) asked through the waveform "
                "database and the VPI provider of hgdb-replay against a reading of the generated file; and replay sessions with one and two clocks, any start "
                "time, stepping, continuing and reversing judged by the model of lib/scen.py on the values just before each rising edge")
    cfg = {"exe": bins["replayhost"], "prop": "C28"}
    q, n = ctx.n(250, 4000), ctx.n(350, 5000)
    cases = [f"q/C28/{ctx.seed}/{i}" for i in range(q)] + [f"s/C28/{ctx.seed}/{i}" for i in range(n)]
    for case, r in ctx.pool(work, cases, cfg):
        if r is None:
            continue
        ctx.case(r["key"], {"case": case, **{k: v for k, v in r.items() if k != "key"}})
        if "n" in r:
            ctx.count("queries", r["n"])
            continue
        for k, v in r.get("stats", {}).items():
            ctx.count(k, v)
        ctx.count("reports", r["reports"])
        ctx.count("edges", r["edges"])
    return ctx.finish(100, 30)
