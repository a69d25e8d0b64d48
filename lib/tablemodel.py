"""Random symbol tables (the JSON format) and an independent reading of them.

A table is generated as plain Python data (what goes into the JSON file). Model() reads that data by the documented rules:
instances, statements in execution order, innermost file names, conditions, lexical scoping."""
import copy, random
import exprmodel as X

ORDER = {"none": 0, "decl": 1, "block": 2, "assign": 3, "module": 4}


def tokens(name):
    out, cur = [], ""
    for c in name:
        if c in "[].":
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def basename(p):
    return p.rsplit("/", 1)[-1]


def file_matches(query, ref):
    return query == ref or (not ref.startswith("/") and ref == basename(query))


class Stmt:
    __slots__ = ("kind", "line", "col", "conds", "file", "vars", "indices", "before", "node", "own")

    def __repr__(self):
        return f"<{self.kind} {self.file}:{self.line}:{self.col}>"


class Module:
    def __init__(self, d):
        self.name = d["name"]
        self.stmts = []        # statements with a line, in execution order
        self.assigns = []      # every assignment
        self.files = set()
        self.insts = {}


class Model:
    def __init__(self, table):
        self.table = table
        self.refs = {}
        for v in table.get("variables", []):
            self.refs.setdefault(v["id"], v)
        self.reorder = table.get("reorder", True)
        self.modules = {}
        self.gen = {}
        for m in table["table"]:
            if m["type"] == "module" and m["name"] not in self.modules:
                self._module(m)
        tops = table["top"]
        tops = [tops] if isinstance(tops, str) else tops
        self.tops = [m["name"] for m in table["table"] if m["type"] == "module" and m["name"] in set(tops)]
        self.instances = {}   # full name -> (module name, parent full name or None)
        for t in self.tops:
            self._inst(t, t, None)
        self.total = sum(len(self.modules[m].stmts) for m, _ in self.instances.values())

    def var(self, v):
        v = self.refs[v] if isinstance(v, str) else v
        d = v.get("type") == "delay"
        return {"name": v["name"], "value": v["value"], "rtl": v["rtl"], "delay": v.get("depth", 1) if d else 0}

    def _module(self, m):
        mod = Module(m)
        self.modules[m["name"]] = mod
        self.gen[m["name"]] = [self.var(v) for v in m["variables"]]
        for i in m.get("instances", []):
            mod.insts.setdefault(i["name"], i["module"])
        self._walk(mod, m, None, [m.get("condition", "")], [], True)

    def _sorted(self, entries):
        """normal form of a block: (entries with their vars merged)"""
        out = []
        for e in entries:
            n = {"e": e, "line": e.get("line", 0), "col": e.get("column", 0), "type": e["type"]}
            if e["type"] == "block":
                n["kids"] = self._sorted(e["scope"])
                if self.reorder and n["kids"]:
                    n["line"] = n["first"]= n["kids"][0]["line"]
            if e["type"] in ("decl", "assign"):
                n["vars"] = [self.var(e["variable"])]
            out.append(n)
        if self.reorder:
            out.sort(key=lambda n: (n["line"], n["col"], ORDER[n["type"]]))
            res = []
            for n in out:
                p = res[-1] if res else None
                if p and n["type"] in ("decl", "assign") and p["type"] == n["type"] and p["line"] == n["line"] and p["col"] == n["col"] and \
                        p["e"].get("condition", "") == n["e"].get("condition", "") and not n["e"].get("indices") and \
                        not p["e"].get("indices"):
                    p["vars"] = p["vars"] + n["vars"]
                else:
                    res.append(n)
            out = res
        return out

    def _walk(self, mod, entry, kids, conds, visible, top=False, file=None):
        """visible: variables seen so far in the enclosing blocks, oldest first"""
        if kids is None:
            if top:
                # the statements of a module itself keep their order
                kids = []
                for e in entry["scope"]:
                    r = self._sorted([e])
                    kids += r
            else:
                kids = self._sorted(entry["scope"])
        seen = list(visible)
        for n in kids:
            e = n["e"]
            c = [e.get("condition", "")] + conds
            if n["type"] == "block":
                f = e.get("filename") or file
                if e.get("filename"):
                    mod.files.add(e["filename"])
                self._walk(mod, e, n["kids"], c, seen, False, f)
                continue
            s = Stmt()
            s.kind, s.line, s.col, s.file, s.own = n["type"], n["line"], n["col"], file, e.get("condition", "")
            s.conds = [x for x in c if x]
            s.vars = n.get("vars", [])
            s.indices = [{"var": self.var(i["var"]), "min": i["min"], "max": i["max"]} for i in e.get("indices", [])]
            s.before = list(seen)
            if s.kind == "assign":
                mod.assigns.append(s)
            if s.line > 0:
                mod.stmts.append(s)
            if s.kind in ("decl", "assign"):
                seen.append(s)

    def _inst(self, full, mod, parent):
        self.instances[full] = (mod, parent)
        for n, m in sorted(self.modules[mod].insts.items()):
            self._inst(full + "." + n, m, full)

    # ------------------------------------------------------------ derived
    def ctx(self, stmt, mod=None, value_of=None):
        """[(set of equally old variables)] oldest first: every entry is the variable list of one statement"""
        out = []
        for s in stmt.before:
            if s.indices:
                vs = []
                for ix in s.indices:
                    v = ix["var"]
                    if not v["rtl"] or value_of is None:
                        continue
                    i = value_of(v["value"])
                    if i is not None:
                        vs.append({"name": f"{s.vars[0]['name']}.{i}", "value": f"{s.vars[0]['value']}[{i}]", "rtl": True, "delay": v["delay"], "element": True})
                out.append(vs)
            else:
                out.append(s.vars)
        return out

    def visible(self, stmt, value_of=None):
        """name -> variable (or None if several definitions are equally new)"""
        res = {}
        for vs in self.ctx(stmt, value_of=value_of):
            names = [v["name"] for v in vs]
            for v in vs:
                res[v["name"]] = v if names.count(v["name"]) == 1 else None
        return res

    def cond_holds(self, stmt, env):
        """env: name -> value; None if it cannot be said"""
        for c in stmt.conds:
            t = X.parse(c)
            v = X.ev(t, env)
            if v is X.POISON:
                return None
            if not v:
                return False
        return True

    def cond_symbols(self, stmt):
        r = set()
        for c in stmt.conds:
            r |= set(X.symbols(X.parse(c)))
        return r


# ---------------------------------------------------------------- generation
class Gen:
    """options: files, sigs (per module signal names), conditions on or off"""

    def __init__(self, rng, **o):
        self.rng = rng
        self.o = {"max_mods": 5, "max_insts": 24, "refs": True, "index": True, "delay": True, "multi_top": True, "hostile_names": False,
                  "max_lines": 12, "or_conditions": True, "nested_files": True, "condition_prob": 0.35, **o}
        r = rng
        self.files = r.sample(["/tmp/hgdb_t/a.py", "/tmp/hgdb_t/b.py", "/src/x/top.scala", "rel.py", "sub/dir/rel2.py", "/a b/ü.py", "a.py"],
                              r.randrange(1, 4))
        self.refs = []

    def cond(self, sigs):
        r = self.rng
        if r.random() > self.o["condition_prob"] or not sigs:
            return None
        a, b = r.choice(sigs), r.choice(sigs)
        forms = [a, f"!{a}", f"{a} == {r.randrange(4)}", f"{a} > {b}", f"{a} & 1", f"({a} == 1) && {b}", f"~{a} % 2 == 0", f"{a}!={b}"]
        if self.o["or_conditions"]:
            forms += [f"{a} || {b}", f"{a} == 1 || {b} == 2", f"!{a} || {b} && {a}"]
        return r.choice(forms)

    def variable(self, sigs, ref=True):
        r = self.rng
        name = r.choice(["a", "b", "c", "x.y", "x.z", "arr[0]", "arr[1]", "arr.2", "s.t[3].u", "val", "self.val"])
        if r.random() < 0.75 and sigs:
            v = {"name": name, "value": r.choice(sigs), "rtl": True}
        else:
            v = {"name": name, "value": r.choice(["0", "1", "42", "4095", "text", "9223372036854775807"]), "rtl": False}
        if self.o["delay"] and v["rtl"] and r.random() < 0.1:
            v["type"] = "delay"
            if r.random() < 0.5:
                v["depth"] = r.randrange(1, 5)
        elif r.random() < 0.05:
            v["type"] = "normal"
        if ref and self.o["refs"] and r.random() < 0.25:
            v["id"] = f"v{len(self.refs)}" if r.random() < 0.9 else f"日{len(self.refs)}"
            self.refs.append(v)
            return v["id"]
        if ref and self.o["refs"] and self.refs and r.random() < 0.1 and not self.o.get("own_sigs"):
            return r.choice(self.refs)["id"]
        return v

    def loc(self, e, zero=0.05):
        r = self.rng
        e["line"] = r.randrange(1, self.o["max_lines"]) if r.random() > zero else 0
        if r.random() < 0.35:
            e["column"] = r.randrange(1, 5)
        return e

    def entries(self, sigs, depth, n=None):
        r = self.rng
        out = []
        for _ in range(r.randrange(1, 5) if n is None else n):
            k = r.random()
            c = self.cond(sigs)
            if k < 0.3 and depth > 0:
                e = {"type": "block", "scope": self.entries(sigs, depth - 1)}
                if r.random() < 0.1:
                    e["scope"] = []
                if r.random() < 0.4:
                    self.loc(e)
                if self.o["nested_files"] and r.random() < 0.15:
                    e["filename"] = r.choice(self.files)
            elif k < 0.5:
                e = self.loc({"type": "decl", "variable": self.variable(sigs)})
            elif k < 0.85:
                e = self.loc({"type": "assign", "variable": self.variable(sigs)})
                if self.o["index"] and r.random() < 0.15 and sigs:
                    e["variable"] = {"name": r.choice(["arr", "mem"]), "value": r.choice(sigs), "rtl": True}
                    if self.o["delay"] and r.random() < 0.2:
                        e["variable"].update({"type": "delay"}, **({"depth": r.randrange(1, 4)} if r.random() < 0.5 else {}))
                    e["indices"] = []
                    for k in range(r.choice([1, 1, 1, 2, 3])):
                        v, lo = {"name": r.choice(["i", "addr"]), "value": r.choice(sigs), "rtl": True}, r.choice([0, 0, 0, 1, 3])
                        if self.o["delay"] and r.random() < 0.25:
                            v.update({"type": "delay"}, **({"depth": r.randrange(1, 4)} if r.random() < 0.5 else {}))
                        e["indices"].append({"var": v, "min": lo, "max": lo + r.randrange(0, 4)})
            else:
                e = self.loc({"type": "none"})
                if r.random() < 0.1:
                    del e["line"]
            if c:
                e["condition"] = c
            out.append(e)
        return out

    def module(self, name, subs):
        r = self.rng
        sigs = self.o["sigs"](name) if "sigs" in self.o else [f"s{i}" for i in range(r.randrange(1, 6))] + (["w.x"] if r.random() < 0.2 else [])
        m = {"type": "module", "name": name, "variables": [], "scope": [], "instances": []}
        for _ in range(r.randrange(0, 4)):
            m["variables"].append(self.variable(sigs))
        for _ in range(r.randrange(1, 4)):
            b = {"type": "block", "filename": r.choice(self.files), "scope": self.entries(sigs, r.randrange(0, 4))}
            c = self.cond(sigs)
            if c and r.random() < 0.5:
                b["condition"] = c
            m["scope"].append(b)
        for i, s in enumerate(subs):
            m["instances"].append({"name": r.choice(["u", "inst", "child_", "dut"]) + str(i), "module": s})
        if r.random() < 0.2 and not m["instances"]:
            del m["instances"]
        return m

    def table(self):
        r = self.rng
        while True:
            n = r.randrange(1, self.o["max_mods"] + 1)
            names = r.sample(["top", "mod", "child", "leaf", "alu", "M1", "top_2", "c$d"], n)
            subs = {}
            for i, nm in enumerate(names):
                subs[nm] = [r.choice(names[i + 1:]) for _ in range(r.randrange(0, 4))] if i + 1 < n else []
            size = {}
            for nm in reversed(names):
                size[nm] = 1 + sum(size[s] for s in subs[nm])
            tops = [names[0]]
            if self.o["multi_top"] and n > 1 and r.random() < (0.2 if self.o["multi_top"] is True else self.o["multi_top"]):
                tops.append(names[1])
            if sum(size[t] for t in tops) <= self.o["max_insts"]:
                break
        self.refs = []
        mods = [self.module(nm, subs[nm]) for nm in names]
        r.shuffle(mods)
        t = {"table": mods, "top": tops[0] if len(tops) == 1 and r.random() < 0.7 else tops}
        if self.refs:
            t["variables"] = self.refs
            r.shuffle(t["variables"])
        k = r.random()
        if k < 0.3:
            t["reorder"] = False
        elif k < 0.4:
            t["reorder"] = True
        if r.random() < 0.5:
            t["attributes"] = [{"name": r.choice(["clock", "k", "日"]), "value": r.choice(["top.clk", "v", ""])} for _ in range(r.randrange(0, 5))]
        if r.random() < 0.5:
            t["generator"] = "x"
        return t
