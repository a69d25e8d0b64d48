"""C34: hgdb-rewrite-vcd gives the signals of a waveform their source names and changes nothing else"""
import json, os, random, shutil, sqlite3, subprocess, tempfile
import build as B
from c27 import SCHEMA
from c28 import code
from host import Violation

ENV = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
WS = [" ", " ", "\n", "  ", "\t", "\n\n", " \n "]


class Scope:
    def __init__(self, kind, name):
        self.kind, self.name, self.vars, self.scopes = kind, name, [], []

    def find(self, name):
        return next((s for s in self.scopes if s.name == name), None)

    def all(self):
        yield self
        for s in self.scopes:
            yield from s.all()

    def form(self):
        """the declarations, in any order within a scope"""
        return [self.kind, self.name, sorted(list(v) for v in self.vars), sorted((s.form() for s in self.scopes), key=json.dumps)]


def parse(text):
    """a reading of the written file: what stands before the definitions, the definitions, what follows them, dump sections left open"""
    t, i = text.split(), 0
    metas, roots, stack, events, left_open, time = [], [], [], [], 0, None
    while i < len(t) and t[i] != "$enddefinitions":
        e = t.index("$end", i)
        k, body = t[i], t[i + 1:e]
        if k == "$scope":
            s = Scope(*body)
            (stack[-1].scopes if stack else roots).append(s)
            stack.append(s)
        elif k == "$upscope":
            stack.pop()
        elif k == "$var":
            kind, width, ident, name, *sl = body
            stack[-1].vars.append((kind, int(width), ident, name, "".join(sl)))
        else:
            metas.append((k, tuple(body)))
        i = e + 1
    if stack or i >= len(t):
        raise ValueError("the definitions do not end")
    i += 2
    open_ = False
    while i < len(t):
        w = t[i]
        if w[0] == "#" or w[0] == "$":
            if w == "$end":
                open_ = False
            else:
                if open_:
                    left_open += 1
                open_ = w[0] == "$"
                events.append((w,))
        elif w[0] in "bB":
            i += 1
            events.append((t[i], w[1:], "b"))
        else:
            events.append((w[1:], w[0], "s"))
        i += 1
    return metas, roots, events, left_open + open_


class Case:
    def __init__(self, rng):
        self.rng = rng
        self.codes = []
        self.n = 0
        self.rows = []     # (instance name, value, rtl, generator name)
        self.insts = []
        style = rng.choice(["plain", "plain", "plain", "flat", "alone", "twice", "roots", "absent"])
        self.style = style
        deep = style in ("plain", "twice", "roots", "absent")
        dut = self.module("dut" if rng.random() < 0.5 else rng.choice(["u_top", "core", "soc[0]"]), 0 if not deep else rng.choice([1, 2, 3]))
        if style == "alone":
            dut.scopes = []
        names = [""] + [p for p, _ in self.paths(dut)] if deep else [""]
        top = rng.choice(["top", "mod", dut.name])
        self.table(dut, top, names)
        if not deep and rng.random() < 0.1:
            self.insts, self.rows = [], []       # an empty table
        if style == "absent":
            # an instance the waveform does not have, with the longest name of them all
            self.insts.append(top + "." + (max(names, key=len) or "x") + "." + "gone_" * 6)
            self.found = None
        else:
            self.found = dut
        self.roots = []
        if deep and len(max(names, key=len)) > 2 and rng.random() < 0.3:
            # one that the waveform does not have
            self.insts.append(top + ".z9")
            self.rows.append(("z9", rng.choice([v[3] for v in dut.vars]), True, "other"))
        if style == "alone" or style == "plain" and rng.random() < 0.15:
            self.roots = [dut]
        else:
            tb = Scope("module", rng.choice(["tb", "TOP", "test"]))
            self.fill(tb, rng.randrange(3))
            at = tb
            if rng.random() < 0.3 and style != "flat":
                h = Scope("module", "harness")
                self.fill(h, rng.randrange(3))
                tb.scopes.append(h)
                at = h
            side = Scope("begin", "side")
            self.fill(side, rng.randrange(0, len(dut.vars)) if dut.vars and style == "flat" else rng.randrange(4) if style != "flat" else 0)
            kids = [dut, side] if rng.random() < 0.7 or style == "twice" else [dut]
            if style == "flat" and len(dut.vars) <= len(side.vars):
                kids = [dut]
            rng.shuffle(kids)
            at.scopes += kids
            if style == "twice":
                at.scopes.append(self.copy(dut, dut.name + "_2"))
                if len(max(names, key=len).split(".")) >= 1 and max(names, key=len):
                    self.found = None
                else:
                    self.found = max(at.scopes, key=lambda s: len(s.vars)) if at is tb else max(tb.scopes, key=lambda s: len(s.vars))
            elif not any(names):
                # a table of one level: the scope below the test bench that has the most signals
                self.found = max(tb.scopes, key=lambda s: len(s.vars))
            self.roots = [tb]
            if style == "roots":
                for n in rng.sample(["pkg", "glob", "$unit"], rng.randrange(1, 3)):
                    s = Scope("package" if rng.random() < 0.5 else "module", n)
                    self.fill(s, rng.randrange(3))
                    self.roots.insert(rng.choice([0, len(self.roots)]), s)
                if not any(names):
                    self.found = max((s for r in self.roots for s in r.scopes), key=lambda s: len(s.vars))
        self.top = top

    def ident(self, w):
        same = [c for c, x in self.codes if x == w]
        if same and self.rng.random() < 0.3:
            return self.rng.choice(same)
        c = code(len(self.codes) * 7 + self.rng.randrange(7))
        self.codes.append((c, w))
        return c

    def fill(self, s, n, names=None):
        rng = self.rng
        for _ in range(n):
            self.n += 1
            name = rng.choice(["clk", "a", "io_a_b", "data", "x", "f", "v"]) + rng.choice(["", str(self.n)])
            if rng.random() < 0.2:
                name += f"[{rng.randrange(4)}]"
            if any(v[3] == name for v in s.vars) or s.find(name):
                continue
            w = rng.choice([1, 1, 2, 8, 16, 33, 64, 70])
            s.vars.append((rng.choice(["wire", "reg", "integer"]), w, self.ident(w), name, rng.choice(["", f"[{w - 1}:0]"]) if w > 1 else ""))

    def module(self, name, depth):
        rng = self.rng
        s = Scope(rng.choice(["module", "module", "begin", "generate"]), name)
        self.fill(s, rng.randrange(1, 8))
        for _ in range(rng.choice([0, 0, 1, 2])):
            self.n += 1
            m = Scope(rng.choice(["module", "begin"]), rng.choice(["s", "io", "bundle"]) + str(self.n))
            self.fill(m, rng.randrange(1, 4))
            if rng.random() < 0.3:
                k = Scope("module", rng.choice(["g", "io"]))
                self.fill(k, rng.randrange(1, 3))
                m.scopes.append(k)
            m.struct = True
            s.scopes.append(m)
        if depth:
            for _ in range(rng.choice([1, 1, 2, 3])):
                self.n += 1
                s.scopes.append(self.module(rng.choice(["u", "inst", "alu"]) + str(self.n), depth - 1))
        rng.shuffle(s.scopes)
        return s

    def copy(self, s, name):
        c = Scope(s.kind, name)
        c.vars = list(s.vars)
        c.scopes = [self.copy(x, x.name) for x in s.scopes]
        return c

    def paths(self, s, pre=""):
        for x in s.scopes:
            if not getattr(x, "struct", False):
                yield pre + x.name, x
                yield from self.paths(x, pre + x.name + ".")

    def table(self, dut, top, names):
        rng = self.rng
        for p in names:
            self.insts.append(top + ("." + p if p else ""))
            s = dut
            for n in filter(None, p.split(".")):
                s = s.find(n)
            local = [(v[3], s) for v in s.vars]
            for m in s.scopes:
                if getattr(m, "struct", False):
                    local += [(m.name + "." + v[3], m) for v in m.vars] + [(m.name + "." + k.name + "." + v[3], k) for k in m.scopes for v in k.vars]
            rng.shuffle(local)
            for value, _ in local[:rng.choice([0, 2, 4, 99])]:
                r = rng.random()
                self.n += 1
                g = rng.choice(["val", "io.a", "io.a.b", "io.q[2]", "abc[1]", "self.x.y", "s"]) + (str(self.n) if r < 0.7 else "")
                if any(x[0] == p and x[3] == g for x in self.rows):
                    g += "_" + str(self.n)
                if r > 0.93:
                    g = value
                self.rows.append((p, value, rng.random() < 0.9, g))
            if rng.random() < 0.2:
                self.rows.append((p, rng.choice(["no_such", "gone.q", "5"]), rng.random() < 0.5, "zz" + str(self.n)))

    def expected(self):
        """renames, on the declared tree"""
        if self.found is None:
            return
        moves = []
        for p, value, rtl, g in self.rows:
            s = self.found
            for n in filter(None, p.split(".")):
                s = s and s.find(n)
            if not rtl or s is None:
                continue
            at, *name = s, *value.split(".")
            while len(name) > 1 and at is not None:
                at = at.find(name.pop(0))
            v = at and next((v for v in at.vars if v[3] == name[0]), None)
            if v is not None:
                moves.append((s, at, v, g))
        for s, at, v, g in moves:
            at.vars.remove(v)
        for s, at, v, g in moves:
            *pre, last = g.split(".")
            for n in pre:
                k = s.find(n)
                if k is None:
                    k = Scope("module", n)
                    s.scopes.append(k)
                s = k
            s.vars.append(v[:3] + (last,) + v[4:])

    # ---- the files
    def vcd(self):
        rng = self.rng
        out, self.metas, self.events = [], [], []

        def ws():
            return rng.choice(WS)

        def meta():
            k = rng.choice(["$date", "$version", "$timescale", "$comment"])
            body = rng.choice([("1", "ns"), ("Feb", "10,", "2021"), ("a", "$var", "b"), (), ("x",)])
            self.metas.append((k, body))
            out.append(ws().join([k, *body, "$end"]))

        def scope(s):
            out.append(ws().join(["$scope", s.kind, s.name, "$end"]))
            late = [v for v in s.vars if rng.random() < 0.3]
            vs = [v for v in s.vars if v not in late]
            s.vars = vs + late          # (the order in which they are declared)
            for v in vs:
                var(v)
            for x in s.scopes:
                scope(x)
            for v in late:
                var(v)
            out.append(ws().join(["$upscope", "$end"]))
            if rng.random() < 0.1:
                meta()

        def var(v):
            out.append(ws().join(["$var", v[0], str(v[1]), v[2], v[3], *([v[4]] if v[4] else []), "$end"]))
        for _ in range(rng.randrange(4)):
            meta()
        for r in self.roots:
            scope(r)
        out.append("$enddefinitions" + ws() + "$end")

        def values(cs):
            for c, w in cs:
                r = rng.random()
                if r < 0.04:
                    out.append(f"r{rng.random()}{ws()}{c}")
                elif w == 1 and r < 0.9:
                    x = rng.choice("0101xzXZ")
                    out.append(x + c)
                    self.events.append((c, x.lower(), "s"))
                else:
                    x = "".join(rng.choice("0011xzXZ" if rng.random() < 0.2 else "01") for _ in range(rng.randrange(1, w + 1)))
                    out.append(rng.choice("bbB") + x + ws() + c)
                    self.events.append((c, x.lower(), "b"))
        t = rng.choice([0, 0, 5, 2**32 - 3])
        early = rng.random() < 0.5
        for i in range(rng.choice([0, 1, 5, 30])):
            if i or not early:
                out.append(f"#{t}")
                self.events.append((f"#{t}",))
                t += rng.choice([1, 5, 10, 2**20])
            if i == 0 or rng.random() < 0.1:
                k = "$dumpvars" if i == 0 else rng.choice(["$dumpall", "$dumpoff", "$dumpon"])
                out.append(k)
                self.events.append((k,))
                values([c for c in self.codes if rng.random() < 0.9])
                out.append("$end")
            if rng.random() < 0.1:
                out.append(ws().join(["$comment", "1!", "#7", "$end"]))
            values([c for c in self.codes if rng.random() < 0.3])
        return "".join(x + ws() for x in out)

    def db(self, path):
        rng = self.rng
        c = sqlite3.connect(path)
        c.executescript(SCHEMA)
        ids = rng.sample(range(1000), len(self.insts))
        rng.shuffle(ids)
        order = list(zip(ids, self.insts))
        rng.shuffle(order)
        c.executemany("INSERT INTO instance VALUES (?, ?, '')", order)
        byname = {n: i for i, n in order}
        vids = rng.sample(range(5000), len(self.rows))
        for vid, (p, value, rtl, g) in zip(vids, self.rows):
            c.execute("INSERT INTO variable VALUES (?, ?, ?)", (vid, value, int(rtl)))
            c.execute("INSERT INTO generator_variable VALUES (?, ?, ?, '')", (g, byname[self.top_of(p)], vid))
        c.commit()
        c.close()

    def top_of(self, p):
        return self.top + ("." + p if p else "")


def launch(exe, d, vcd):
    with open(d + "/in.vcd", "w", encoding="latin-1", newline="") as f:
        f.write(vcd)
    try:
        r = subprocess.run([exe, "-i", d + "/in.vcd", "-d", d + "/t.db", "-o", d + "/out.vcd"], capture_output=True, text=True, errors="replace", env=ENV, timeout=60)
    except subprocess.TimeoutExpired:
        raise Violation("hgdb-rewrite-vcd does not end", vcd[:4000])
    if r.returncode not in (0, 1) or "runtime error" in r.stderr or "Sanitizer" in r.stderr:
        raise Violation(f"hgdb-rewrite-vcd crashes ({r.returncode}): {r.stderr[-700:]}", vcd[:6000])
    return r


def work(case, cfg):
    rng = random.Random(case)
    hostile = case.startswith("h/")
    d = tempfile.mkdtemp(prefix="c34-")
    try:
        c = Case(rng)
        text = c.vcd()
        c.db(d + "/t.db")
        detail = {"vcd": text[:6000], "instances": c.insts, "rows": c.rows}
        if hostile:
            n = 0
            toks = text.split(" ")
            for _ in range(4):
                t = list(toks)
                for _ in range(rng.randrange(1, 4)):
                    i = rng.randrange(len(t))
                    r = rng.random()
                    if r < 0.4:
                        del t[i]
                    elif r < 0.7:
                        t.insert(i, rng.choice(["$upscope $end", "$scope module q $end", "$var wire 1 ! z $end", "$end", "$enddefinitions $end", "#", "b", "\xff", "$dumpvars", "$comment"]))
                    elif r < 0.85:
                        t = t[:i] or [""]
                    else:
                        t[i] = t[i][:len(t[i]) // 2]
                    if not t:
                        break
                r = launch(cfg["exe"], d, " ".join(t))
                n += 1
            return {"key": f"h/{c.style}/{r.returncode}/{len(text)}", "hostile": n}
        r = launch(cfg["exe"], d, text)
        if c.found is None:
            if r.returncode == 0:
                raise Violation("the design of the table is not (once) in the waveform, and the waveform is written without an error", detail)
            return {"key": f"refused/{c.style}/{len(c.insts)}/{len(text)}", "refused": 1}
        if r.returncode:
            raise Violation(f"a well-formed waveform is refused: {r.stderr[-400:]}", detail)
        with open(d + "/out.vcd", encoding="latin-1") as f:
            out = f.read()
        detail["out"] = out[:6000]
        try:
            metas, roots, events, left_open = parse(out)
        except (ValueError, IndexError) as e:
            raise Violation(f"what is written is no VCD file: {e}", detail)
        if metas != c.metas:
            raise Violation(f"the header sections {metas} instead of {c.metas}", detail)
        c.expected()
        got, want = [s.form() for s in roots], [s.form() for s in c.roots]
        if sorted(got, key=json.dumps) != sorted(want, key=json.dumps):
            g, w = flat(got), flat(want)
            raise Violation(f"declarations: {sorted(g - w)[:4]} instead of {sorted(w - g)[:4]}", detail)
        if events != c.events:
            i = next((i for i, (a, b) in enumerate(zip(events, c.events)) if a != b), min(len(events), len(c.events)))
            raise Violation(f"value changes differ from the {i}th on: {events[i:i + 4]} instead of {c.events[i:i + 4]}", detail)
        known = left_open > 0
        return {"key": f"{c.style}/{len(c.rows)}/{len(events)}/{len(out)}", "events": len(events), "renamed": sum(1 for x in c.rows if x[2]),
                "vars": sum(len(s.vars) for r in c.roots for s in r.all()), "open": left_open if known else 0, "detail": detail if known else None}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def flat(forms, pre=""):
    out = set()
    for kind, name, vs, subs in forms:
        p = f"{pre}{name}({kind})"
        out.add(p)
        out |= {p + " " + " ".join(map(str, v)) for v in vs}
        out |= flat(subs, p + ".")
    return out


def run(ctx):
    bins = ctx.build("sql", "rewrite")
    ctx.rule = ("random waveforms (test benches, harnesses, several roots, structures, aliases, all layouts of white space, dump sections, comments, unknown and real "
                "values) with random SQLite tables, rewritten by the real tool under sanitizers and read back by an independent reader: header, declarations with the "
                "renames the table asks for, value changes and times; designs that are absent or twice in the waveform; damaged files")
    cfg = {"exe": bins["rewrite"], "prop": "C34"}
    q, h = ctx.n(900, 12000), ctx.n(200, 3000)
    cases = [f"w/C34/{ctx.seed}/{i}" for i in range(q)] + [f"h/C34/{ctx.seed}/{i}" for i in range(h)]
    opened = 0
    for case, r in ctx.pool(work, cases, cfg):
        if r is None:
            continue
        ctx.case(r["key"], {"case": case, **{k: v for k, v in r.items() if k not in ("key", "detail")}})
        for k in ("events", "renamed", "vars", "refused", "hostile"):
            ctx.count(k, r.get(k, 0))
        ctx.count("dump sections left open", r.get("open", 0))
        if r.get("open"):
            opened += 1
            if opened == 1:
                ctx.violate("dump-section-open", "a $dumpvars section of the waveform is written without its $end", detail=r["detail"])
    return ctx.finish(100, 30)
