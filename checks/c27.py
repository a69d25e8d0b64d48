"""C27: SQLite symbol tables against an independent reading of their rows"""
import os, random, re, sqlite3, tempfile, zlib
from host import Violation
from probe import Probe
from tablecheck import Loaded

SCHEMA = """
CREATE TABLE breakpoint (id INTEGER PRIMARY KEY NOT NULL, instance_id INTEGER, filename TEXT NOT NULL, line_num INTEGER NOT NULL, column_num INTEGER NOT NULL, condition TEXT NOT NULL, "trigger" TEXT NOT NULL);
CREATE TABLE instance (id INTEGER PRIMARY KEY NOT NULL, name TEXT NOT NULL, annotation TEXT NOT NULL);
CREATE TABLE scope (scope INTEGER PRIMARY KEY NOT NULL, breakpoints TEXT NOT NULL);
CREATE TABLE variable (id INTEGER PRIMARY KEY NOT NULL, value TEXT NOT NULL, is_rtl INTEGER NOT NULL);
CREATE TABLE context_variable (name TEXT NOT NULL, breakpoint_id INTEGER, variable_id INTEGER, type INTEGER NOT NULL);
CREATE TABLE generator_variable (name TEXT NOT NULL, instance_id INTEGER, variable_id INTEGER, annotation TEXT NOT NULL);
CREATE TABLE annotation (name TEXT NOT NULL, value TEXT NOT NULL);
CREATE TABLE event (name TEXT NOT NULL, "transaction" TEXT NOT NULL, action INTEGER NOT NULL, fields TEXT NOT NULL, matches TEXT NOT NULL, breakpoint_id INTEGER);
CREATE TABLE assignment (name TEXT NOT NULL, value TEXT NOT NULL, breakpoint_id INTEGER, condition TEXT NOT NULL, scope_id INTEGER);
"""
TABLES = {"breakpoint": 7, "instance": 3, "scope": 2, "variable": 3, "context_variable": 4, "generator_variable": 4, "annotation": 2, "event": 6,
          "assignment": 5}


class Rows:
    """random rows; every reference is to a row that is there"""

    def __init__(self, rng):
        self.rng = rng
        ids = lambda n: rng.sample(range(0, rng.choice([n + 2, 100, 1 << 31, (1 << 32) - 2])), n) if n else []
        top = rng.choice(["top", "mod", "t", "a", "tb"])
        names = [top]
        for _ in range(rng.randrange(6)):
            names.append(rng.choice(names) + "." + rng.choice(["a", "b", "sub", "top", "u[0]", "u[1]", "inst", "t"]))
        names = list(dict.fromkeys(names))
        rng.shuffle(names)
        self.inst = dict(zip(ids(len(names)), names))
        base = ["a.py", "b.py", "top.sv", "x y.cc"]
        absolute = ["/src/a.py", "/src/b.py", "/src/lib/a.py", "/other/a.py", "/src/lib/deep/c.scala", "/srca.py"]
        kind = rng.choice(["abs", "base", "mixed"])
        self.files = rng.sample(absolute, rng.randint(1, 4)) if kind == "abs" else rng.sample(base, rng.randint(1, 3)) if kind == "base" else \
            rng.sample(base, rng.randint(1, 2)) + rng.sample(absolute, rng.randint(1, 3))
        self.relative = False
        nb = rng.choice([0, 1, 5, 20, 60])
        iid = sorted(self.inst)
        cond = lambda: rng.choice(["", "", "a", "a == 1", "b && !(c)", "x[1] | y.z"])
        self.bps = {i: (rng.choice(iid), rng.choice(self.files), rng.randint(1, rng.choice([3, 30])), rng.choice([0, 0, 1, 2, 80]), cond(),
                        rng.choice(["", "", "a", "a b"])) for i in ids(nb)}
        self.relative = any(not b[1].startswith("/") for b in self.bps.values())
        bid = sorted(self.bps)
        order = bid[:]
        rng.shuffle(order)
        self.scopes = {}
        if rng.random() < 0.7 and order:
            k = rng.randint(1, min(4, len(order)))
            cuts = sorted(rng.sample(range(len(order) + 1), k - 1))
            parts = [order[i:j] for i, j in zip([0] + cuts, cuts + [len(order)])]
            self.scopes = dict(zip(ids(len(parts)), parts))
        nv = rng.choice([1, 4, 15])
        words = ["x", "y", "stop", "topper", "a", "b", "data", "data[3]", "s.f", "arr.2", "arr[0][1]", "mod_x", "at.b", "top", "amod.q", "t"]
        self.vars = {}
        for i in ids(nv):
            rtl = rng.random() < 0.75
            v = rng.choice(words) if rtl else rng.choice(["1", "42", "text", "", "18446744073709551616", "x"])
            if rtl and rng.random() < 0.2:
                v = rng.choice(names) + "." + v
            self.vars[i] = (v, int(rtl))
        vid = sorted(self.vars)
        name = lambda: rng.choice(["x", "y", "z", "s.f", "arr[0]", "arr.1", "self", "n"])
        self.ctx = [(name(), rng.choice(bid), rng.choice(vid), int(rng.random() < 0.2)) for _ in range(rng.choice([0, 5, 40]))] if bid else []
        self.gen = [(name(), rng.choice(iid), rng.choice(vid), "") for _ in range(rng.choice([0, 5, 20]))]
        self.ann = [(rng.choice(["clock", "k", "K", "é"]), rng.choice(["top.clk", "v", "", "w x"])) for _ in range(rng.randrange(5))]
        sid = sorted(self.scopes)
        self.asg = []
        if bid:
            for b in rng.sample(bid, rng.randint(0, len(bid))):
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    n = rng.choice(["x", "y", "arr", "arr[0]", "s", "s.f"])
                    # (the scope of a breakpoint's own assignments)
                    sc = next((s for s, l in self.scopes.items() if b in l), None) if rng.random() < 0.8 else None
                    if sc is not None and not any(a[2] == b for a in self.asg):
                        pass
                    self.asg.append((n, rng.choice(["x_0", "x_1", "r"]), b, rng.choice(["", "", "addr == 2"]), sc))

    def write(self, path):
        db = sqlite3.connect(path)
        db.executescript(SCHEMA)
        rows = {"breakpoint": [(i, *v) for i, v in self.bps.items()], "instance": [(i, n, "") for i, n in self.inst.items()],
                "scope": [(i, " ".join(map(str, l))) for i, l in self.scopes.items()], "variable": [(i, *v) for i, v in self.vars.items()],
                "context_variable": self.ctx, "generator_variable": self.gen, "annotation": self.ann, "assignment": self.asg,
                "event": [("e", "t", 0, "{}", "{}", b) for b in list(self.bps)[:2]]}
        for t, l in rows.items():
            self.rng.shuffle(l) if t in ("breakpoint", "instance", "variable") else None
            db.executemany(f"INSERT INTO {t} VALUES ({','.join('?' * TABLES[t])})", l)
        db.commit()
        db.close()

    # what the rows declare
    def bp(self, i, m=lambda f: f):
        b = self.bps[i]
        return {"id": i, "instance_id": b[0], "filename": m(b[1]), "line": b[2], "column": b[3], "condition": b[4], "trigger": b[5]}

    def at(self, file, line=0, col=0):
        # a table without directories is addressed by the name of the file
        want = {file} | ({os.path.basename(file)} if self.relative else set())
        return sorted(i for i, b in self.bps.items() if b[1] in want and (not line or b[2] == line) and (not col or b[3] == col))

    def value(self, v, inst):
        val, rtl = self.vars[v]
        # RTL values are relative to the instance unless they already start with its name
        return val if not rtl or val.startswith(self.inst[inst] + ".") else self.inst[inst] + "." + val


def tokens(s, sep):
    return [t for t in re.split("[" + re.escape(sep) + "]", s) if t]


def assigned(R, name, bp):
    """the assignments of the variable assigned at the breakpoint: in the same instance, and in the same scope where one is given"""
    if bp not in R.bps:
        return []
    own = [a for a in R.asg if a[2] == bp]
    if not own:
        return []
    ref, member = None, False
    if len(own) > 1:
        ref = next((a for a in own if a[0] == name), None)
    elif own[0][0] == name:
        ref = own[0]
    elif ("[" in name or "." in name) and tokens(name, "[.")[0] == own[0][0]:
        ref, member = own[0], True
    if ref is None:
        return []
    inst = R.bps[bp][0]
    out = []
    for a in R.asg:
        if a[0] != ref[0] or R.bps[a[2]][0] != inst or (ref[4] is not None and a[4] != ref[4]):
            continue
        v = a[1]
        if member:
            for t in tokens(name, "[.]")[1:]:
                v += f"[{t}]" if t.isdigit() else f".{t}"
        out.append([a[2], v, a[3]])
    return sorted(out)


def check(rng, L, R, text):
    n = 0

    def want(what, got, exp):
        nonlocal n
        n += 1
        if got != exp:
            raise Violation(f"SQLite table: {what} gives {got}, the rows say {exp}", text)
    to_client = lambda f: f
    if rng.random() < 0.3:
        mapping = rng.choice([{"/home/u": "/src"}, {"/home/u/p": "/src/lib"}, {"/src": "/other"}, {"/home/u/": "/src/"}])
        (c, d), = mapping.items()
        L.p.ask("table", q="map", t=L.t, m=mapping)
        d1, c1 = d.rstrip("/"), c.rstrip("/")
        to_client = lambda f: c1 + f[len(d1):] if f.startswith(d1 + "/") else f
        to_db = lambda f: d1 + f[len(c1):] if f.startswith(c1 + "/") else f
    else:
        to_db = lambda f: f
    bids = sorted(R.bps)
    lines = sorted({b[2] for b in R.bps.values()})
    cols = sorted({b[3] for b in R.bps.values()})
    want("the list of files", sorted(set(L.q("files"))), sorted({to_client(b[1]) for b in R.bps.values()}))
    queries = {to_client(f) for f in R.files} | set(R.files) | {"/nowhere/" + os.path.basename(f) for f in R.files} | {"a.py", "lib/a.py", "", "/src/A.py"}
    for f in sorted(queries):
        key = lambda l: sorted(l, key=lambda b: b["id"])
        exp = lambda *a: [R.bp(i, to_client) for i in R.at(to_db(f), *a)]
        want(f"file {f!r}", key(L.q("bps1", file=f)), exp())
        for ln in rng.sample(lines, min(3, len(lines))) + [99999]:
            want(f"{f!r}:{ln}", key(L.q("bps2", file=f, line=ln)), exp(ln))
            for c in rng.sample(cols, min(2, len(cols))) + [77]:
                want(f"{f!r}:{ln}:{c}", key(L.q("bps3", file=f, line=ln, col=c)), exp(ln, c))
    for i in bids[:25] + [bids[-1] + 1 if bids else 3]:
        there = i in R.bps
        want(f"breakpoint {i}", L.q("bp", id=i), R.bp(i, to_client) if there else None)
        want(f"the instance name of breakpoint {i}", L.q("inst_name_bp", id=i), R.inst[R.bps[i][0]] if there else None)
        want(f"the instance of breakpoint {i}", L.q("inst_id_bp", id=i), R.bps[i][0] if there else None)
        exp = [{"name": c[0], "value": R.value(c[2], R.bps[i][0]), "rtl": bool(R.vars[c[2]][1]), "bp": i, "type": c[3], "depth": 1} for c in R.ctx
               if c[1] == i] if there else []
        want(f"the variables at breakpoint {i}", L.q("ctx", id=i), exp)
        for name in ("x", "arr.0", "self"):
            hits = [e for e in exp if tokens(e["name"], "[].") == tokens(name, "[].")]
            if hits:
                e = hits[-1]
                inst = R.inst[R.bps[i][0]]
                full = e["value"] if not e["rtl"] or e["value"].startswith(inst + ".") else inst + "." + e["value"]
                want(f"the name {name!r} at breakpoint {i}", L.q("res_bp", id=i, name=name), full)
        for name in ("x", "y", "arr", "arr[0]", "arr[2].f", "s.f", "s.g", "zz", "zz[1]", "ss.f", "arrx[1]", "x1.f"):
            want(f"the assignments of {name!r} at breakpoint {i}", sorted(L.q("assigned", id=i, name=name)), assigned(R, name, i))
    for i, name in R.inst.items():
        want(f"instance {i}", L.q("inst_name", id=i), name)
        want(f"the id of instance {name!r}", L.q("inst_id", name=name), i)
        want(f"the generator variables of {name}", L.q("gen", id=i),
             [{"name": g[0], "value": R.value(g[2], i), "rtl": bool(R.vars[g[2]][1]), "inst": i} for g in R.gen if g[1] == i])
    want("an unknown instance", L.q("inst_name", id=max(R.inst) + 1), None)
    want("an unknown instance name", L.q("inst_id", name="nobody"), None)
    want("the instances", sorted(L.q("inst_names")), sorted(R.inst.values()))
    for k in ("clock", "k", "K", "é", "none"):
        want(f"annotation {k!r}", L.q("ann", name=k), [v for n_, v in R.ann if n_ == k])
    used = {R.value(g[2], g[1]) for g in R.gen if R.vars[g[2]][1]} | {R.value(c[2], R.bps[c[1]][0]) for c in R.ctx if R.vars[c[2]][1]}
    want("the RTL names", sorted(L.q("arrays")), sorted(used))
    if R.scopes:
        order = [b for s in sorted(R.scopes) for b in R.scopes[s]]
        want("the execution order", L.q("order"), order)
    else:
        want("the execution order", L.q("order"), sorted(bids, key=lambda b: (R.bps[b][1], R.bps[b][2], b)))
    return n


def work(case, cfg):
    rng = random.Random(case)
    out = {"tables": 0, "queries": 0, "bps": 0, "keys": []}
    with Probe(cfg["exe"], timeout=60) as p, tempfile.TemporaryDirectory() as tmp:
        for i in range(cfg["n"]):
            R = Rows(rng)
            f = os.path.join(tmp, f"t{i}.db")
            R.write(f)
            r = p.ask("table", q="load", file=f)
            text = repr({k: v for k, v in R.__dict__.items() if k != "rng"})[:6000]
            if r["null"] or r["bad"]:
                raise Violation("a valid SQLite symbol table is refused", text)
            L = Loaded(p, r["t"])
            out["queries"] += check(rng, L, R, text)
            L.free()
            os.unlink(f)
            out["tables"] += 1
            out["bps"] += len(R.bps)
            if len(R.bps) > 3 and len(R.inst) > 1:
                out["keys"].append(zlib.crc32(text.encode()))
        out["sample"] = {"rows": text[:500]}
        p.end()
    return out


def run(ctx):
    exe = ctx.build("sql", "probe")["probe"]
    ctx.rule = ("random SQLite symbol tables written with Python's sqlite3 and read by the real provider (on a stand-in for the sqlite_orm "
                "headers): arbitrary ids, several instances, absolute, base and mixed file names, scopes or none, names that contain each other, "
                "with and without path mappings. Oracle: an independent reading of the rows")
    for case, r in ctx.pool(work, [f"C27/{ctx.seed}/{i}" for i in range(ctx.n(32, 300))], {"exe": exe, "n": ctx.n(12, 50)}):
        ctx.evaluations += r["queries"]
        ctx.nontrivial.update(r["keys"])
        ctx.count("tables", r["tables"])
        ctx.count("breakpoints", r["bps"])
        if len(ctx.samples) < 3:
            ctx.samples.append(r["sample"])
    return ctx.finish(1000, 50)
