"""C16: tables built with the C++ writer read back the same"""
import copy, json, random, zlib
import tablemodel as T, tablecheck as K
from probe import Probe
from host import Violation

HOSTILE = ['q"uote', "back\\slash", "new\nline", "tab\t", "\x01ctl", "日本", "a/b", "</x>", "\\\"", "😀", "{}", "end\\", '"', "\x1f", "\x7f", " ", "a,b", "],"]


def clean(rng, e, hostile):
    """restricts an entry to what the writer can express"""
    if e["type"] == "block":
        if not e["scope"]:
            e["scope"] = [{"type": "none", "line": rng.randrange(1, 9)}]
        for x in e["scope"]:
            clean(rng, x, hostile)
    if "line" not in e:
        e.pop("column", None)
    for k in ("condition", "filename"):
        if hostile and k in e and rng.random() < 0.3:
            e[k] = rng.choice(HOSTILE) + e[k]
    v = e.get("variable")
    if v:
        v.pop("type", None)
        if hostile and rng.random() < 0.3:
            v[rng.choice(["name", "value"])] = rng.choice(HOSTILE)


def spec(rng, hostile):
    t = T.Gen(rng, refs=False, index=False, delay=False, max_lines=rng.choice([3, 8, 30]), max_insts=16).table()
    for m in t["table"]:
        m.setdefault("instances", [])
        for v in m["variables"]:
            v.pop("type", None)
            if hostile and rng.random() < 0.3:
                v[rng.choice(["name", "value"])] = rng.choice(HOSTILE)
        for e in m["scope"]:
            clean(rng, e, hostile)
    if hostile and rng.random() < 0.4:
        new = rng.choice(HOSTILE) + "m"
        old = rng.choice(t["table"])["name"]
        for m in t["table"]:
            if m["name"] == old:
                m["name"] = new
            for i in m["instances"]:
                if i["module"] == old:
                    i["module"] = new
    used = {i["module"] for m in t["table"] for i in m["instances"]}
    tops = sorted({m["name"] for m in t["table"]} - used)
    return {"table": t["table"], "top": tops, "reorder": t.get("reorder", True), "generator": rng.choice(["x", "chisel", 'a"b'])}


def norm(t):
    """the table without the writer's freedoms: references, omitted file names, defaults"""
    refs = {v["id"]: v for v in t.get("variables", [])}
    if len(refs) != len(t.get("variables", [])):
        raise Violation(f"variable ids are not unique: {t['variables']}")

    def var(v):
        if isinstance(v, str):
            if v not in refs:
                raise Violation(f"dangling reference {v!r}")
            v = refs[v]
        return {k: x for k, x in v.items() if k != "id"}

    def entry(e, file, top):
        o = {k: x for k, x in e.items() if k not in ("scope", "variable", "filename")}
        f = e.get("filename") or file
        if f is not None:
            o["filename"] = f
        if e["type"] == "block":
            o["scope"] = [entry(x, f, False) for x in e["scope"]]
        if "variable" in e:
            o["variable"] = var(e["variable"])
        return o
    mods = []
    for m in t["table"]:
        o = {k: x for k, x in m.items() if k not in ("scope", "variables")}
        o["scope"] = [entry(e, None, True) for e in m["scope"]]
        o["variables"] = [var(v) for v in m["variables"]]
        mods.append(o)
    top = t["top"]
    return {"table": mods, "top": sorted([top] if isinstance(top, str) else top), "reorder": t.get("reorder", True), "generator": t.get("generator")}




def lexical(scope, path):
    """the variable statements visible at the end of the block that path leads to, or None if path leads to the module itself"""
    out, kids = [], scope
    for depth, i in enumerate(path):
        if depth > 0 or True:
            out += kids[:i]
        kids = kids[i].get("scope", [])
    return out + kids


def same_stmt(a, b):
    va, vb = a["variable"], b["variable"]
    eqv = all(va[k] == vb[k] for k in ("name", "value", "rtl"))
    un = lambda s: not s.get("filename") and not s.get("line")
    if un(a) or un(b):
        return eqv
    return eqv and all(a.get(k, d) == b.get(k, d) for k, d in (("filename", ""), ("line", 0), ("column", 0), ("condition", "")))


def work(case, cfg):
    rng = random.Random(case)
    out = {"tables": 0, "loaded": 0, "lookups": 0, "keys": [], "sample": None}
    with Probe(cfg["exe"], timeout=60) as p:
        for i in range(cfg["n"]):
            hostile = rng.random() < 0.4
            s = spec(rng, hostile)
            item = {"op": "writer", "generator": s["generator"], "modules": s["table"], "no_reorder": not s["reorder"], "twice": rng.random() < 0.3}
            plain = p.ask(**{**item, "compress": False})
            comp = p.ask(**{**item, "compress": True})
            want = norm(s)
            texts = [("plain", plain["text"]), ("compressed", comp["text"])] + [("first", x["before"]) for x in (plain, comp) if "before" in x]
            for kind, text in texts:
                try:
                    got = json.loads(text)
                except ValueError as e:
                    raise Violation(f"{kind} output is not JSON ({e})", text[:3000])
                if norm(got) != want:
                    a, b = json.dumps(norm(got), sort_keys=True), json.dumps(want, sort_keys=True)
                    k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), 0)
                    raise Violation(f"{kind} output differs: ...{a[max(0, k - 80):k + 80]}... instead of ...{b[max(0, k - 80):k + 80]}...", text[:3000])
            m = T.Model(s) if not hostile else None
            loads = []
            for kind, text in (("plain", plain["text"]), ("compressed", comp["text"])):
                L = K.load(p, s, "parse", text)
                loads.append(L)
                if m:
                    M = K.Matched(rng, L, m)
                    K.check_misc(rng, L, m, M)
                    if i % 4 == 0:
                        K.check_locations(rng, L, m, M)
                        K.check_scoping(rng, L, m, M, 10)
            # the two answer every query alike
            order = loads[0].q("order")
            qs = [{"q": x} for x in ("order", "files", "inst_names")]
            for b in order[:40]:
                qs += [{"q": x, "id": b} for x in ("bp", "ctx", "static", "inst_name_bp", "delayed")]
            for b in range(8):
                qs += [{"q": x, "id": b} for x in ("gen", "inst_name")]
            for q, a, b in zip(qs, loads[0].qs(qs), loads[1].qs(qs)):
                if a != b:
                    raise Violation(f"query {q}: {a} on the plain table, {b} on the compressed one", plain["text"][:3000])
            for L in loads:
                L.free()
            out["tables"] += 1
            out["loaded"] += 2
            out["keys"].append(zlib.crc32(plain["text"].encode("utf-8", "surrogatepass")))
            # the look-up of statements already visible
            mod = rng.choice(s["table"])
            path, kids = [], mod["scope"]
            while True:
                bl = [k for k, e in enumerate(kids) if e["type"] == "block"]
                if not bl or (path and rng.random() < 0.4):
                    break
                k = rng.choice(bl)
                path.append(k)
                kids = kids[k]["scope"]
            vis = [e for e in lexical(mod["scope"], path) if e["type"] in ("decl", "assign")]
            stm = [e for e in _all(mod["scope"]) if e["type"] in ("decl", "assign")]
            if path and stm:
                st = copy.deepcopy(rng.choice(stm))
                st.pop("condition", None) if rng.random() < 0.2 else None
                if rng.random() < 0.2:
                    st["line"] = 0
                if rng.random() < 0.2:
                    st["variable"]["rtl"] = not st["variable"]["rtl"]
                q = {"op": "same_var", "scope": mod["scope"], "path": path, "variable": st["variable"], "line": st.get("line", 0),
                     "decl": st["type"] == "decl"}
                q.update({k: st[k] for k in ("column", "condition", "filename") if k in st})
                r = p.ask(**q)["r"]
                w = any(same_stmt(st, e) for e in vis)
                out["lookups"] += 1
                if r != w:
                    raise Violation(f"look-up of a visible statement says {r} instead of {w}", json.dumps(q)[:3000])
        out["sample"] = {"text": comp["text"][:500]}
        p.end()
    return out


def _all(scope):
    for e in scope:
        yield e
        yield from _all(e.get("scope", []))


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("random tables built through the writer's classes (nesting, conditions, hostile strings), written plain, compressed and twice; "
                "the text is parsed by an independent JSON reader and compared with what was built, loaded by the runtime and compared with the "
                "model of C13/C14, plain against compressed. non-trivial: distinct tables")
    ctx.assumptions = ["every block directly in a module has a file name and at least one statement (the file format asks for it)"]
    for case, r in ctx.pool(work, [f"C16/{ctx.seed}/{i}" for i in range(ctx.n(32, 240))], {"exe": exe, "n": ctx.n(12, 60)}):
        ctx.evaluations += r["loaded"]
        ctx.nontrivial.update(r["keys"])
        for k in ("tables", "loaded", "lookups"):
            ctx.count(k, r[k])
        if len(ctx.samples) < 3:
            ctx.samples.append(r["sample"])
    return ctx.finish(200, 100)
