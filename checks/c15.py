"""C15: malformed symbol tables are refused or harmless"""
import copy, json, os, random, tempfile, zlib
import tablemodel as T
import scen as S
import e2e
from probe import Probe, describe
from host import Violation

NUM = [0, -1, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63, -2**63, 2**64, 1e300, 1.0, 1.5, -0.0, 10**30]
ANY = NUM + ["", "x", "日", "decl", "block", "module", "none", "assign", None, True, False, [], {}, [[]], [{}], ["x"], {"type": "none"},
             {"type": "block", "scope": []}, {"name": "a", "value": "s0", "rtl": True}, "v0", "a" * 300, "\u0000", "a\u0000b", "{", "{0}", "%s",
             "[", "]", ".", "..", "a..b", "[]", "s0 +", "((", "s0 && ", "0x", "1" * 30]


def nodes(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            yield from nodes(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from nodes(x, path + (i,))


def at(v, path):
    for p in path:
        v = v[p]
    return v


def mutate(rng, t):
    t = copy.deepcopy(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        ps = [p for p in nodes(t) if p]
        if not ps:
            break
        k = rng.random()
        p = rng.choice(ps)
        par = at(t, p[:-1])
        cur = at(t, p)
        if k < 0.25:
            par[p[-1]] = copy.deepcopy(rng.choice(ANY))
        elif k < 0.4:
            del par[p[-1]]
        elif k < 0.5 and isinstance(par, list):
            par.insert(rng.randrange(len(par) + 1), copy.deepcopy(rng.choice([cur, rng.choice(ANY)])))
        elif k < 0.6:
            # something from elsewhere in the table
            par[p[-1]] = copy.deepcopy(at(t, rng.choice(ps)))
        elif k < 0.7:
            nums = [q for q in ps if q[-1] in ("line", "column", "depth", "min", "max")]
            if nums:
                q = rng.choice(nums)
                at(t, q[:-1])[q[-1]] = rng.choice(NUM)
        elif k < 0.78:
            inst = [q for q in ps if q[-1] == "module"]
            if inst:
                q = rng.choice(inst)
                at(t, q[:-1])[q[-1]] = rng.choice([m.get("name", "x") if isinstance(m, dict) else "x" for m in t.get("table", [])] + ["nope", ""]) \
                    if isinstance(t.get("table"), list) else "nope"
        elif k < 0.86:
            var = [q for q in ps if q[-1] in ("variable", "var")]
            if var:
                q = rng.choice(var)
                at(t, q[:-1])[q[-1]] = rng.choice(["dangling", "", "v0"])
        elif k < 0.92:
            nm = [q for q in ps if q[-1] in ("name", "value", "filename", "condition", "id") and isinstance(at(t, q), str)]
            if nm:
                q = rng.choice(nm)
                at(t, q[:-1])[q[-1]] = rng.choice([x for x in ANY if isinstance(x, str)])
        elif k < 0.96 and isinstance(par, dict):
            par[rng.choice(["type", "depth", "indices", "scope", "variables", "line", "condition", "attributes", "top"])] = copy.deepcopy(rng.choice(ANY))
        else:
            t["top"] = copy.deepcopy(rng.choice(["nope", "", [], ["nope"], ["top", "top"], [""], {}, 1]))
    return t


def mangle(rng, text):
    b = bytearray(text.encode("utf-8", "surrogatepass"))
    k = rng.randrange(6)
    if k == 0:
        return bytes(b[:rng.randrange(len(b))])
    if k == 1:
        for _ in range(rng.randrange(1, 6)):
            b[rng.randrange(len(b))] = rng.randrange(256)
        return bytes(b)
    if k == 2:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 60)))
    if k == 3:
        i, j = sorted((rng.randrange(len(b)), rng.randrange(len(b))))
        return bytes(b[:i] + b[j:])
    if k == 4:
        d = rng.randrange(1, 150)
        return (b'{"top":"m","table":[{"type":"module","name":"m","variables":[],"scope":[' +
                b'{"type":"block","filename":"f","scope":[' * d + b'{"type":"none","line":1}' + b"]}" * d + b"]}]}")[:rng.choice([10**6, 10**6, 200])]
    return rng.choice([b"", b" ", b"null", b"[]", b"{}", b"1", b'"x"', b"SQLite format ", b"\xef\xbb\xbf{}", b"\x00", b'{"table":[],"top":[]}',
                       b'{"table":[],"top":"x"}', b'{"top":"m","table":[{"type":"module","name":"m","variables":[],"scope":[]}]}'])


NAMES = ["a", "x.y", "arr[0]", "arr[1]", "arr", "mem[2]", "arr[99999999999999999999]", "arr[-1]", "", ".", "[", "[]", "nothing", "a[", "s0", "{", "日"]


def battery(rng, t):
    out = [{"q": q} for q in ("order", "files", "inst_names", "arrays")]
    ids = [0, 1, 2, 3, 5, 8, 13, 2**32 - 1]
    for i in ids:
        out += [{"q": q, "id": i} for q in ("bp", "inst_name_bp", "inst_id_bp", "inst_name", "ctx", "delayed", "gen", "static")]
        for n in rng.sample(NAMES, 5):
            out += [{"q": q, "id": i, "name": n} for q in ("assigned", "res_bp", "res_inst")]
    for n in ("top", "top.u0", "", ".", "..", "a.b.c", "mod", "日"):
        out += [{"q": "inst_id", "name": n}, {"q": "ann", "name": n}]
    for f in ("/tmp/hgdb_t/a.py", "rel.py", "a.py", "", "/", "f", "日"):
        out += [{"q": "bps1", "file": f}, {"q": "bps3", "file": f, "line": rng.randrange(8), "col": rng.randrange(3)}, {"q": "bps2", "file": f, "line": 1}]
    rng.shuffle(out)
    if rng.random() < 0.5:
        out.insert(rng.randrange(len(out)), {"q": "symval"})
    return [{"op": "table", "t": t, **x} for x in out]


def work(case, cfg):
    rng = random.Random(case)
    out = {"refused": 0, "loaded": 0, "queries": 0, "keys": [], "sample": None}
    p = Probe(cfg["exe"], timeout=40)
    last = None
    with tempfile.TemporaryDirectory() as tmp:
        try:
            for i in range(cfg["n"]):
                t = T.Gen(rng, max_insts=10, max_mods=4).table()
                if rng.random() < 0.75:
                    t = mutate(rng, t)
                    text = json.dumps(t).encode("utf-8", "surrogatepass")
                else:
                    text = mangle(rng, json.dumps(t))
                last = text
                how = rng.choice(["parse", "parse", "load", "construct"])
                if how == "parse":
                    r = p.ask("table", q="parse", content_hex=text.hex())
                else:
                    f = os.path.join(tmp, "t.json")
                    with open(f, "wb") as g:
                        g.write(text)
                    r = p.ask("table", q=how, file=f)
                ok = not r["null"] and not r["bad"] and r["ok"]
                if how == "parse" and r["ok"] == r["bad"]:
                    raise Violation(f"parsing says {r['ok']} but the table is {'bad' if r['bad'] else 'good'}")
                out["loaded" if ok else "refused"] += 1
                out["keys"].append(zlib.crc32(text))
                if "t" in r:
                    q = battery(rng, r["t"]) if ok else rng.sample(battery(rng, r["t"]), 40)
                    p.batch(q)
                    out["queries"] += len(q)
                    p.ask("table", q="free", t=r["t"])
            out["sample"] = {"text": text[:300].decode("utf-8", "replace"), "reply": r}
            p.end()
        except Violation as e:
            raise Violation(e.what, f"{e.detail or ''}\ntable: {last.decode('utf-8', 'replace')[:4000]}")
        finally:
            p.kill()
    return out


def live(case, cfg):
    """through a client: such a file is refused or taken, and a proper one works afterwards"""
    rng = random.Random(case)
    T0 = e2e.json_table(rng, cfg)
    s = S.Session(cfg["exe"], T0, rng, rich=False)
    s.decoy_p = 0
    out = {"live_refused": 0, "live_loaded": 0}
    f = os.path.join(s.host.dir, "hostile.json")

    def hostile(c, reset=False):
        t = T.Gen(rng, max_insts=10, max_mods=4).table()
        text = json.dumps(mutate(rng, t)).encode("utf-8", "surrogatepass") if rng.random() < 0.6 else mangle(rng, json.dumps(t))
        with open(f, "wb") as g:
            g.write(text)
        r = e2e.probe(cfg).ask("table", q="load", file=f)
        if "t" in r:
            e2e.probe(cfg).ask("table", q="free", t=r["t"])
        ok = not r["null"] and not r["bad"] and r["ok"]
        if reset and ok:
            return True
        what = f"a connection with the table {text[:300]!r}, which {'loads' if ok else 'does not load'},"
        r = c.request("connection", {"db_filename": f})
        s.ok(r, ok, "C15", what)
        if not ok and not r["payload"].get("reason"):
            raise S.Bad("C15", what + f" is answered with {r}")
        out["live_loaded" if ok else "live_refused"] += 1
        for t, p in rng.sample([("breakpoint", {"filename": rng.choice(T0.files), "line_num": 1, "action": "add"}), ("breakpoint-id", {"id": 0, "action": "add"}),
                                ("debugger-info", {"command": "filename"}), ("evaluation", {"expression": "a + 1", "breakpoint_id": 0}),
                                ("bp-location", {"filename": rng.choice(T0.files)}), ("debugger-info", {"command": "design"})], 3):
            r = c.request(t, p)
            if not ok and t != "debugger-info" and r["status"] != "error":
                raise S.Bad("C15", what + f" is refused, yet {t} {p} is answered with {r}")
        if ok:
            # nothing of it may stay
            for i in range(3):
                c.request("breakpoint-id", {"id": i, "action": "remove"})
        return ok
    try:
        c = s.host.client()
        for _ in range(rng.randrange(1, 6)):
            hostile(c)
        c.close()
        s.start()
        e2e.insert_everything(s, rng)
        bad = rng.randrange(1, 5)

        class Enough(Exception):
            pass

        def stop(n):
            if n == bad:
                while hostile(s.c, True):
                    pass
                raise Enough
        try:
            e2e.drive(s, rng, rng.randrange(2, 6), stop)
        except Enough:
            # no table, no breakpoints: the simulation runs to its end
            s.c.request("command", {"command": "continue"})
            m = s.wait()
            if m is not None:
                raise S.Bad("C15", f"without a symbol table {m} is reported")
            r = s.c.request("connection", {"db_filename": os.path.join(s.host.dir, "table.json")})
            s.ok(r, True, "C15", "a connection with a proper table after a refused one")
            s.design()
            out["dropped_while_paused"] = 1
        s.host.finish()
        return {"stats": out, "key": f"live/{case}", "reports": s.reports}
    finally:
        s.close()


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("valid tables mutated in structure (missing and extra members, wrong types, extreme numbers, dangling and cyclic references, "
                "duplicates, hostile names) or in text (truncation, byte changes, garbage, deep nesting), loaded as text and as file, then "
                "every query with valid and invalid arguments, under ASan and UBSan. non-trivial: distinct inputs")
    ctx.assumptions = ["block nesting up to 150 levels; instance trees up to a few hundred instances"]
    one = (getattr(ctx, "only", None) or {}).get("case", "")
    for case, r in [] if one.startswith("C15/live") else ctx.pool(work, [f"C15/{ctx.seed}/{i}" for i in range(ctx.n(32, 320))], {"exe": exe, "n": ctx.n(120, 200)}):
        ctx.evaluations += r["refused"] + r["loaded"]
        ctx.nontrivial.update(r["keys"])
        for k in ("refused", "loaded", "queries"):
            ctx.count(k, r[k])
        if len(ctx.samples) < 4:
            ctx.samples.append(r["sample"])
    bins = {"exe": ctx.build("asan", "simhost")["simhost"], "probe": exe, "prop": "C15"}
    for case, r in [] if one and not one.startswith("C15/live") else ctx.pool(e2e.wrap(live), [f"C15/live/{ctx.seed}/{i}" for i in range(ctx.n(160, 2000))], bins):
        if r is None:
            continue
        if "other" in r:
            ctx.inconclusive.append(f"{case}: {r['other'][:300]}")
            continue
        ctx.case(r["key"])
        for k, v in r["stats"].items():
            ctx.count(k, v)
    return ctx.finish(500, 300)
