"""Compares a loaded symbol table (through the probe) with the model"""
import json, random
import exprmodel as X
import tablemodel as T
from host import Violation


class Loaded:
    def __init__(self, p, t):
        self.p, self.t = p, t

    def q(self, q, **kw):
        return self.p.ask("table", q=q, t=self.t, **kw)["r"]

    def qs(self, items):
        r = self.p.batch([{"op": "table", "t": self.t, **i} for i in items])
        return [x["r"] for x in r]

    def free(self):
        self.p.ask("table", q="free", t=self.t)


def load(p, table, how="parse", text=None, file=None):
    if how == "parse":
        r = p.ask("table", q="parse", content_hex=(text or json.dumps(table)).encode().hex())
    else:
        r = p.ask("table", q=how, file=file)
    if r["null"] or r["bad"] or not r["ok"]:
        raise Violation(f"a valid symbol table is refused ({how}): {json.dumps(table)[:3000]}")
    return Loaded(p, r["t"])


def envs_for(rng, syms, n=6):
    return [{s: rng.choice([0, 0, 1, 1, 2, 3, -1, rng.getrandbits(63)]) for s in syms} for _ in range(n)]


def same_condition(rng, text, parts, what):
    """text: the condition the code gives; parts: the conditions that must all hold"""
    trees = [X.parse(c) for c in parts]
    syms = set()
    for t in trees:
        syms |= set(X.symbols(t))
    if not text:
        if parts:
            raise Violation(f"{what}: no condition instead of {parts}")
        return 0
    t = X.parse(text)
    if t is None:
        raise Violation(f"{what}: condition {text!r} is not an expression (parts {parts})")
    allsyms = sorted(syms | set(X.symbols(t)))
    n = 0
    for env in envs_for(rng, allsyms):
        want = True
        for x in trees:
            v = X.ev(x, env)
            if v is X.POISON:
                want = None
                break
            if not v:
                want = False
        got = X.ev(t, env)
        if want is None or got is X.POISON:
            continue
        n += 1
        if bool(got) != want:
            raise Violation(f"{what}: condition {text!r} is {bool(got)} where {parts} give {want} for {env}")
    return n


class Matched:
    """ids of the loaded table matched with the model's statements"""

    def __init__(self, rng, L, m):
        self.L, self.m = L, m
        self.order = L.q("order")
        order = self.order
        if len(set(order)) != len(order):
            raise Violation(f"execution order repeats ids: {order}")
        if len(order) != m.total:
            raise Violation(f"execution order has {len(order)} breakpoints, the table places {m.total}")
        bps = L.qs([{"q": "bp", "id": i} for i in order])
        inst_names = L.q("inst_names")
        if sorted(inst_names) != sorted(m.instances):
            raise Violation(f"instance names {sorted(inst_names)} instead of {sorted(m.instances)}")
        self.inst_id = dict(zip(inst_names, L.qs([{"q": "inst_id", "name": n} for n in inst_names])))
        if None in self.inst_id.values() or len(set(self.inst_id.values())) != len(self.inst_id):
            raise Violation(f"instance ids are not unique: {self.inst_id}")
        for n, back in zip(inst_names, L.qs([{"q": "inst_name", "id": self.inst_id[n]} for n in inst_names])):
            if back != n:
                raise Violation(f"instance {n} has id {self.inst_id[n]}, which is named {back}")
        by_id = {v: k for k, v in self.inst_id.items()}
        seq = {}
        self.of = {}
        seen = []
        names = L.qs([{"q": "inst_name_bp", "id": i} for i in order])
        ids = L.qs([{"q": "inst_id_bp", "id": i} for i in order])
        for i, b, nm, iid in zip(order, bps, names, ids):
            if b is None:
                raise Violation(f"breakpoint {i} of the execution order is unknown")
            if b["id"] != i:
                raise Violation(f"breakpoint {i} is returned with id {b['id']}")
            inst = by_id.get(b["instance_id"])
            if inst is None or nm != inst or iid != b["instance_id"]:
                raise Violation(f"breakpoint {i}: instance {b['instance_id']} ({inst}), name query {nm}, id query {iid}")
            if not seen or seen[-1] != inst:
                if inst in seen:
                    raise Violation(f"the statements of instance {inst} are not together in the execution order")
                seen.append(inst)
            k = seq.setdefault(inst, 0)
            seq[inst] = k + 1
            st = m.modules[m.instances[inst][0]].stmts
            if k >= len(st):
                raise Violation(f"instance {inst} has more breakpoints than statements: {len(st)}")
            s = st[k]
            if (b["line"], b["column"], b["filename"]) != (s.line, s.col, s.file):
                raise Violation(f"breakpoint {i} ({k}. statement of {inst}) is {b['filename']}:{b['line']}:{b['column']} instead of "
                                f"{s.file}:{s.line}:{s.col}")
            same_condition(rng, b["condition"], s.conds, f"breakpoint {i} at {s.file}:{s.line}")
            self.of[i] = (inst, s)
        pos = {n: i for i, n in enumerate(seen)}
        for inst, (mod, parent) in m.instances.items():
            if seq.get(inst, 0) != len(m.modules[mod].stmts):
                raise Violation(f"instance {inst} has {seq.get(inst, 0)} breakpoints instead of {len(m.modules[mod].stmts)}")
            a = parent
            while a:
                if inst in pos and a in pos and pos[a] > pos[inst]:
                    raise Violation(f"child {inst} comes before its parent {a} in the execution order")
                a = m.instances[a][1]


def check_locations(rng, L, m, M, thorough=False):
    files = sorted({s.file for _, s in M.of.values()})
    qf = set(files)
    for f in files:
        qf.add("/somewhere/" + T.basename(f))
        qf.add(T.basename(f))
    qf |= {"/nothing.py", "", "/", files[0] + "x" if files else "x"}
    items = []
    for f in sorted(qf):
        items.append({"q": "bps1", "file": f})
        lines = sorted({s.line for _, s in M.of.values()} | {1, 99, 2**32 - 1})
        for l in lines:
            items.append({"q": "bps2", "file": f, "line": l})
            items.append({"q": "bps3", "file": f, "line": l, "col": 0})
            for c in sorted({s.col for _, s in M.of.values() if s.line == l} | {1, 7}):
                if c:
                    items.append({"q": "bps3", "file": f, "line": l, "col": c})
    if len(items) > 400 and not thorough:
        items = rng.sample(items, 400)
    found = 0
    for it, r in zip(items, L.qs(items)):
        want = {i for i, (_, s) in M.of.items()
                if T.file_matches(it["file"], s.file) and it.get("line", s.line) == s.line and (not it.get("col") or it["col"] == s.col)}
        got = [b["id"] for b in r]
        if len(set(got)) != len(got):
            raise Violation(f"query {it} repeats breakpoints: {got}")
        if set(got) != want:
            raise Violation(f"query {it} returns breakpoints {sorted(got)} instead of {sorted(want)}")
        for b in r:
            inst, s = M.of[b["id"]]
            if (b["line"], b["column"], b["filename"]) != (s.line, s.col, s.file) or b["instance_id"] != M.inst_id[inst]:
                raise Violation(f"query {it} returns {b}, which by id is {s.file}:{s.line}:{s.col} in {inst}")
        if r:
            b = rng.choice(r)
            same_condition(rng, b["condition"], M.of[b["id"]][1].conds, f"query {it}, breakpoint {b['id']}")
        found += len(want)
    return len(items), found


def check_misc(rng, L, m, M):
    want = set()
    for inst, (mod, _) in m.instances.items():
        want |= m.modules[mod].files
    got = L.q("files")
    if set(got) != want or (len(m.tops) == 1 and len(got) != len(want)):
        raise Violation(f"file names {got} instead of {sorted(want)}")
    attrs = m.table.get("attributes", [])
    for n in sorted({a["name"] for a in attrs} | {"none", ""}):
        w = [a["value"] for a in attrs if a["name"] == n]
        g = L.q("ann", name=n)
        if g != w:
            raise Violation(f"attribute {n!r}: {g} instead of {w}")
    bad = max(M.order, default=0) + 1
    for q, kw in (("bp", {"id": bad}), ("inst_name_bp", {"id": bad}), ("inst_id_bp", {"id": bad}), ("inst_id", {"name": "nothing.here"}),
                  ("inst_id", {"name": ""}), ("inst_id", {"name": m.tops[0] + ".nope"}), ("inst_name", {"id": 10**6})):
        if L.q(q, **kw) is not None:
            raise Violation(f"query {q} {kw} of something unknown returns {L.q(q, **kw)}")
    if L.q("order") != M.order:
        raise Violation("the execution order differs when asked again")


# ---------------------------------------------------------------- scoping
def equivalent(a, b):
    return T.tokens(a) == T.tokens(b)


def rtl_name(inst, v):
    if not v["rtl"]:
        return v["value"]
    return v["value"] if v["value"].startswith(inst + ".") else f"{inst}.{v['value']}"


def symbol_value(name):
    """what the probe's symval answers for a signal"""
    n = sum(name.encode())
    return None if n % 11 == 0 else n % 5


def check_scoping(rng, L, m, M, limit=60):
    ids = list(M.of)
    if len(ids) > limit:
        ids = rng.sample(ids, limit)
    n = 0
    gens = {i: m.gen[mod] for i, (mod, _) in m.instances.items()}
    for inst in m.instances:
        g = L.q("gen", id=M.inst_id[inst])
        if [(x["name"], x["value"], x["rtl"]) for x in g] != [(x["name"], x["value"], x["rtl"]) for x in gens[inst]]:
            raise Violation(f"generator variables of {inst}: {g} instead of {gens[inst]}")
        for name in {v["name"] for v in gens[inst]} | {"nothing", "a", "x.y"}:
            for form in {name, name.replace("[", ".").replace("]", "")}:
                c = [v for v in gens[inst] if equivalent(v["name"], form)]
                byval = [v for v in gens[inst] if v["value"] == form]
                r = L.q("res_inst", name=form, id=M.inst_id[inst])
                if not c and not byval:
                    if r is not None:
                        raise Violation(f"{form!r} resolves to {r!r} in instance {inst}, which does not have it")
                elif c and not byval and len({rtl_name(inst, v) for v in c}) == 1:
                    n += 1
                    if r != rtl_name(inst, c[0]):
                        raise Violation(f"{form!r} in instance {inst} resolves to {r!r} instead of {rtl_name(inst, c[0])!r}")
    for sym in (False, True):
        if sym:
            L.q("symval")
        for i in ids:
            inst, s = M.of[i]
            gen = gens[inst]

            def value_of(v):
                if not sym:
                    return None
                g = [g for g in gen if equivalent(g["name"], v)] or [g for g in gen if g["value"] == v]
                return symbol_value(rtl_name(inst, g[0])) if g else None
            groups = m.ctx(s, value_of=value_of)
            vis = m.visible(s, value_of)
            got = L.q("ctx", id=i)
            last = {}
            for v in got:
                last[v["name"]] = v
            if set(last) != set(vis):
                raise Violation(f"breakpoint {i} ({s.file}:{s.line} in {inst}) sees {sorted(last)} instead of {sorted(vis)}")
            for name, v in vis.items():
                n += 1
                if v is not None and (last[name]["value"], last[name]["rtl"]) != (v["value"], v["rtl"]):
                    raise Violation(f"breakpoint {i} ({s.file}:{s.line} in {inst}): {name} is {last[name]} instead of {v}")
                # (an element assigned through an index is as delayed as the index, whatever the depth)
                if v is not None:
                    d = last[name]["depth"] if last[name]["type"] else 0
                    if bool(d) != bool(v["delay"]) or not v.get("element") and d != v["delay"]:
                        raise Violation(f"breakpoint {i} ({s.file}:{s.line} in {inst}): {name} is {last[name]} instead of {v}")
            flat = [v for vs in groups for v in vs]
            # every definition that is listed exists, no more often than in the table
            pool = [(v["name"], v["value"], v["rtl"]) for v in flat]
            for v in got:
                k = (v["name"], v["value"], v["rtl"])
                if k not in pool:
                    raise Violation(f"breakpoint {i} lists {k}, which is not defined before it")
                pool.remove(k)
            st = L.q("static", id=i)
            for name, v in vis.items():
                if v is None:
                    continue
                num = not v["rtl"] and v["value"].isdigit() and int(v["value"]) < 2**63
                if num and st.get(name) != int(v["value"]) or not num and name in st:
                    raise Violation(f"breakpoint {i}: constant value of {name} is {st.get(name)} instead of {v}")
            for name in st:
                if name not in vis:
                    raise Violation(f"breakpoint {i}: constant {name} is not visible")
            for name in set(vis) | {"nothing.at.all"}:
                form = rng.choice([name, name.replace("[", ".").replace("]", "")])
                cand = None
                amb = any(v["value"] == form for v in flat)
                for vs in reversed(groups):
                    c = [v for v in vs if equivalent(v["name"], form)]
                    if c:
                        cand = c[0]
                        amb = amb or len({rtl_name(inst, x) for x in c}) > 1
                        break
                if amb:
                    continue
                r = L.q("res_bp", name=form, id=i)
                want = rtl_name(inst, cand) if cand else None
                n += 1
                if r != want:
                    raise Violation(f"{form!r} at breakpoint {i} ({s.file}:{s.line} in {inst}) resolves to {r!r} instead of {want!r}")
            if not sym:
                check_delayed(L, i, s)
                n += check_assigned(rng, L, m, M, i, inst, s)
    return n


def check_delayed(L, i, s):
    got = {(v["name"], v["value"], v["depth"]) for v in L.q("delayed", id=i)}
    want = set()
    for b in s.before:
        index = any(x["var"]["rtl"] and x["var"]["delay"] for x in b.indices)
        for v in b.vars:
            if v["delay"] or index:
                want.add((v["name"], v["value"], v["delay"] or 1))
    if got != want:
        raise Violation(f"delayed variables of breakpoint {i}: {sorted(got)} instead of {sorted(want)}")


def check_assigned(rng, L, m, M, i, inst, s):
    mod = m.modules[m.instances[inst][0]]
    pos = {id(st): k for k, (ii, st) in M.of.items() if ii == inst}
    names = {v["name"] for a in mod.assigns for v in a.vars}
    names |= {f"{a.vars[0]['name']}[{ix}]" for a in mod.assigns if a.indices for ix in (0, 1, 3, 9)}
    names |= {"nothing", ""}
    n = 0
    for name in rng.sample(sorted(names), min(4, len(names))):
        want = {}
        skip = set()
        tk = T.tokens(name)
        for a in mod.assigns:
            if id(a) not in pos:
                continue
            k = pos[id(a)]
            hit = None
            if a.indices and tk and T.tokens(a.vars[0]["name"]) == tk[:-1] and tk[-1].isdigit():
                for ix in a.indices:
                    if ix["min"] <= int(tk[-1]) <= ix["max"]:
                        hit = (f"{a.vars[0]['value']}[{int(tk[-1])}]", a.conds + [f"{ix['var']['value']} == {int(tk[-1])}"])
                        break
            if hit is None:
                c = [v for v in a.vars if T.tokens(v["name"]) == tk]
                if c:
                    hit = (c[0]["value"], a.conds)
                    if len({v["value"] for v in c}) > 1:
                        skip.add(k)
            if hit:
                want[k] = hit
        got = L.q("assigned", name=name, id=i)
        if sorted(x[0] for x in got) != sorted(want):
            raise Violation(f"assignments to {name!r} seen from breakpoint {i}: {[x[0] for x in got]} instead of {sorted(want)}")
        for k, v, c in got:
            n += 1
            if k in skip:
                continue
            if v != want[k][0]:
                raise Violation(f"assignment {k} to {name!r} is to {v!r} instead of {want[k][0]!r}")
            same_condition(rng, c, want[k][1], f"assignment {k} to {name!r}")
    return n
