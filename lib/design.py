"""Designs to debug: a symbol table (flat or JSON) as plain data, and a simulated hierarchy around it.

Table (IR):
  insts: {id: name}            names start with the name of the top module of the table
  bps: {id: Bp}, order: [id]   execution order
  gens: {inst id: [(name, value, rtl)]}
  assigned: {(bp id, var): [(bp id, rtl name, condition)]}
"""
import json, random
import exprmodel as X
import tablemodel as TM


class Bp:
    __slots__ = ("id", "inst", "iname", "file", "line", "col", "cond", "trigger", "ctx", "assigned")

    def loc(self):
        return (self.file, self.line, self.col)


class Table:
    def __init__(self):
        self.insts, self.bps, self.order, self.gens = {}, {}, [], {}
        self.rank = {}
        self.flat = None
        self.json = None
        self.ann = {}

    def finish(self):
        self.rank = {b: i for i, b in enumerate(self.order)}
        self.tops = list(dict.fromkeys(n.split(".")[0] for n in self.insts.values())) or ["top"]
        self.top = self.tops[0]
        self.locs = sorted({b.loc() for b in self.bps.values()})
        self.files = sorted({b.file for b in self.bps.values()})
        return self

    def at(self, file, line=0, col=0):
        return [b for b in self.bps.values() if self.same_file(file, b.file) and (not line or b.line == line) and (not col or b.col == col)]

    def same_file(self, query, ref):
        return query == ref if self.flat else TM.file_matches(query, ref)

    def to_flat(self):
        return {"instances": [[i, n] for i, n in self.insts.items()],
                "bps": [{"id": b.id, "inst": b.inst, "line": b.line, "col": b.col, "file": b.file, "cond": b.cond,
                         "trigger": " ".join(b.trigger),
                         "ctx": [{"name": n, "value": v, "rtl": r, "type": 1 if d else 0, "depth": d or 1} for n, v, r, d in b.ctx],
                         "assigned": [[v, i, r, c] for v, l in b.assigned.items() for i, r, c in l]} for b in self.bps.values()],
                "order": self.order,
                "gen": [[i, [{"name": n, "value": v, "rtl": r} for n, v, r in g]] for i, g in self.gens.items()],
                "ann": [[n, v] for n, l in self.ann.items() for v in l]}


def dump(probe, table):
    """the IR of a JSON table, as the provider gives it (the provider itself is judged by C13 to C15)"""
    r = probe.ask("table", q="parse", content_hex=json.dumps(table).encode().hex())
    t = r["t"]

    def q(**kw):
        return probe.ask("table", t=t, **kw)["r"]
    T = Table()
    T.json = table
    T.order = q(q="order")
    for n in q(q="inst_names"):
        T.insts[q(q="inst_id", name=n)] = n
    T.insts = dict(sorted(T.insts.items()))
    for i in T.order:
        d = q(q="bp", id=i)
        b = Bp()
        b.id, b.inst, b.file, b.line, b.col, b.cond = i, d["instance_id"], d["filename"], d["line"], d["column"], d["condition"]
        b.iname = T.insts[b.inst]
        b.trigger = []
        b.ctx = [(c["name"], c["value"], c["rtl"], c["depth"] if c["type"] == 1 else 0) for c in q(q="ctx", id=i)]
        b.assigned = {}
        for n in sorted({c[0] for c in b.ctx} | {"a", "b", "c", "val"}):
            a = q(q="assigned", name=n, id=i)
            if a:
                b.assigned[n] = [tuple(x) for x in a]
        T.bps[i] = b
    for i in T.insts:
        T.gens[i] = [(g["name"], g["value"], g["rtl"]) for g in q(q="gen", id=i)]
    probe.ask("table", q="free", t=t)
    return T.finish()


SIGS = ["s0", "s1", "s2", "s3", "en", "cnt", "topq"]
WIDTH = {"s0": 1, "s1": 2, "s2": 4, "s3": 8, "en": 1, "cnt": 16, "topq": 3}


def sig_decls(extra=()):
    out = [{"name": n, "width": WIDTH[n], "kind": "reg" if n in ("cnt", "s3") else "net"} for n in SIGS]
    out.append({"name": "clk", "width": 1})
    return out + list(extra)


RICH = [{"name": "st", "kind": "struct", "members": [{"name": "x", "width": 3, "kind": "reg"}, {"name": "y", "width": 9, "kind": "reg"}]},
        {"name": "arr", "kind": "array", "size": 3, "elem": {"width": 4, "kind": "reg"}},
        {"name": "pk", "kind": "packed", "size": 2, "elem": {"width": 5, "kind": "reg"}},
        {"name": "vec", "kind": "reg", "width": 24},
        {"name": "neg", "kind": "reg", "width": 31},
        {"name": "w32", "kind": "reg", "width": 32},
        {"name": "aos", "kind": "array", "size": 2, "elem": {"kind": "struct", "members": [{"name": "p", "width": 2, "kind": "reg"},
                                                                                        {"name": "q", "width": 6, "kind": "reg"}]}},
        {"name": "mem", "kind": "memory", "size": 2, "elem": {"width": 7}}]


def leaves_of(decl):
    """front suffix, rtl suffix, width of the leaves a variable of this declaration is shown as (as the RTLMock product)"""
    k = decl.get("kind", "net")
    if k == "struct":
        return [(f".{m['name']}" + a, f".{m['name']}" + b, w) for m in decl["members"] for a, b, w in leaves_of(m)]
    if k in ("array", "packed", "memory"):
        return [(f".{i}" + a, f"[{i}]" + b, w) for i in range(decl["size"]) for a, b, w in leaves_of(decl["elem"])]
    return [("", "", decl["width"])]


def cond_text(rng, sigs, p=0.5, consts=()):
    if rng.random() > p:
        return ""
    a, b = rng.choice(sigs), rng.choice(sigs)
    return rng.choice([a, f"!{a}", f"{a} == {rng.randrange(3)}", f"{a} >= {b}", f"{a} & 1", f"({a} == 1) || !{b}", f"{a} != {b}",
                       f"{a} % 3 == {rng.randrange(3)}", f"{a} || {b}", f"{a} && !{b}", f"{a} + {b} > 2"])


def flat_table(rng, n_insts=None, n_stmts=None, order=None, triggers=0.0, delays=0.0, data=False, rich=False, cond_p=0.5, ctx=True,
               consts=False, max_sub=3, n_mods=3, tops=1):
    T = Table()
    # instance tree: modules by depth
    names = ["top", "top2", "soc"][:tops]
    mods = {n: n for n in names}
    n_insts = max(n_insts or rng.randrange(1, 7), tops)
    while len(names) < n_insts:
        p = rng.choice(names[:max(1, min(len(names), max_sub))])
        m = "m%d" % rng.randrange(n_mods)
        nm = f"{p}.u{len(names)}"
        names.append(nm)
        mods[nm] = m
    iid0 = rng.choice([0, 0, 1, 5, 1000])
    T.insts = {iid0 + i: n for i, n in enumerate(names)}
    id_of = {n: i for i, n in T.insts.items()}
    files = rng.sample(["/src/a.py", "/src/sub/b.py", "rel.py", "/ü b/c.scala"], rng.randrange(1, 3))
    stmts = {}
    line = 1
    for m in sorted(set(mods.values())):
        out = []
        f = rng.choice(files)
        for k in range(n_stmts or rng.randrange(1, 6)):
            if rng.random() > 0.15:
                line += 1
            s = {"file": f, "line": line, "col": rng.choice([0, 0, 1, 2, 3]), "cond": cond_text(rng, SIGS, cond_p),
                 "trigger": rng.sample(SIGS, rng.randrange(1, 3)) if rng.random() < triggers else [], "ctx": []}
            if ctx:
                names_ = rng.sample(["a", "b", "c", "val", "w", "self", "self.v", "s1"], rng.randrange(0, 5))
                if names_ and rng.random() < 0.35:
                    # the same name once more: the later one is the one that is visible
                    names_ += rng.choices(names_, k=rng.randrange(1, 3))
                for nm in names_:
                    k2 = rng.random()
                    if k2 < 0.2:
                        s["ctx"].append((nm, rng.choice(["0", "7", "42", "text"]), False, 0))
                    elif rich and k2 < 0.6 and nm != "s1":
                        s["ctx"].append((nm, rng.choice(RICH)["name"], True, 0))
                    elif k2 < 0.66:
                        s["ctx"].append((nm, "nothere", True, 0))
                    else:
                        d = rng.randrange(1, 5) if rng.random() < delays else 0
                        s["ctx"].append((nm, rng.choice(SIGS), True, d))
            out.append(s)
        stmts[m] = out
    recs = []
    for n in names:
        for k, s in enumerate(stmts[mods[n]]):
            recs.append((n, k, s))
    order = order or rng.choice(["inst", "stmt", "random"])
    if order == "stmt":
        recs.sort(key=lambda r: (r[2]["line"], r[2]["col"], r[1], r[0]))
    elif order == "random":
        rng.shuffle(recs)
    ids = list(range(len(recs)))
    k = rng.random()
    if k < 0.3:
        rng.shuffle(ids)
    elif k < 0.6:
        ids = rng.sample(range(1, 5000), len(recs))
    assigned_vars = {}
    for (n, k, s), i in zip(recs, ids):
        b = Bp()
        b.id, b.inst, b.iname, b.file, b.line, b.col, b.cond = i, id_of[n], n, s["file"], s["line"], s["col"], s["cond"]
        b.trigger, b.ctx, b.assigned = s["trigger"], s["ctx"], {}
        T.bps[i] = b
        T.order.append(i)
    for i, n in T.insts.items():
        g = []
        for nm in rng.sample(["g0", "g1", "io.x", "PARAM", "s0"], rng.randrange(0, 4)):
            k = rng.random()
            if k < 0.3:
                g.append((nm, rng.choice(["3", "16", "word"]), False))
            elif rich and k < 0.6 and nm != "s0":
                g.append((nm, rng.choice(RICH)["name"], True))
            else:
                g.append((nm, rng.choice(SIGS), True))
        T.gens[i] = g
    if data:
        # every instance: variables with the statements that assign them
        for i, n in T.insts.items():
            own = [b for b in T.bps.values() if b.inst == i]
            for var, rtls in (("da", ["s1", "s2"]), ("db", ["cnt"]), ("dc", ["s3"])):
                if not own or rng.random() < 0.3:
                    continue
                sites = rng.sample(own, min(len(own), rng.randrange(1, 4)))
                ssa = rng.random() < 0.4
                lst = [(b.id, rtls[j % len(rtls)] if ssa else rtls[0], cond_text(rng, SIGS, 0.2)) for j, b in enumerate(sites)]
                for b in own:
                    b.assigned[var] = lst
    T.flat = True
    T.mods = mods
    return T.finish()


def hierarchy(rng, T, n_occ=1, name="RTLMock", rich=True, tb_depth=None, values=None):
    """simulated modules: a test bench with n_occ occurrences of the table's top; returns (cfg modules, occurrences)"""
    extra = RICH if rich else ()
    # instance tree of the table
    tree = {}
    for n in T.insts.values():
        tree.setdefault(n, [])
    for n in list(tree):
        if "." in n:
            p, c = n.rsplit(".", 1)
            tree.setdefault(p, []).append(c)

    def build(full, inst_name, d):
        return {"name": inst_name, "def": d, "signals": sig_decls(json.loads(json.dumps(list(extra)))),
                "children": [build(full + "." + c, c, "sub_" + c) for c in tree.get(full, [])]}
    occ = []
    T.occ_top = {}
    depth = tb_depth if tb_depth is not None else rng.randrange(0, 3)
    tb = {"name": "tb", "def": "tb_def", "signals": [{"name": "clk", "width": 1}, {"name": "rst", "width": 1}], "children": []}
    # containers the occurrences hang in
    cont = [(tb, "tb")]
    for i in range(depth):
        p, full = rng.choice(cont)
        c = {"name": f"w{i}", "def": f"wrap{i}", "signals": [{"name": "clk", "width": 1}], "children": []}
        p["children"].append(c)
        cont.append((c, full + "." + c["name"]))
    names = ["dut", "dut2", "i_x", "core_0", "c1", "c2"]
    for j, top in enumerate(T.tops):
        # a further top may occur nowhere
        for k in range(n_occ if j == 0 else rng.randrange(0, n_occ + 2)):
            p, full = rng.choice(cont)
            nm = names[k] + "_%d" % j * (j > 0)
            if k == 0 and rng.random() < 0.3:
                nm = top
            p["children"].append(build(top, nm, top))
            occ.append(full + "." + nm)
            T.occ_top[occ[-1]] = top
    # something unrelated
    if rng.random() < 0.5:
        tb["children"].insert(0, {"name": "other", "def": "other", "signals": sig_decls(), "children": []})
    return [tb], occ
