"""C14: scoping of context and generator variables against an independent reading of the table file"""
import json, random, zlib
import tablemodel as T, tablecheck as K
from probe import Probe


def work(case, cfg):
    rng = random.Random(case)
    out = {"tables": 0, "bps": 0, "facts": 0, "keys": [], "sample": None}
    with Probe(cfg["exe"], timeout=60) as p:
        for i in range(cfg["n"]):
            t = T.Gen(rng, max_lines=rng.choice([3, 6, 12, 40]), max_insts=10).table()
            m = T.Model(t)
            text = json.dumps(t)
            L = K.load(p, t, "parse", text)
            M = K.Matched(rng, L, m)
            n = K.check_scoping(rng, L, m, M, cfg["limit"])
            L.free()
            out["tables"] += 1
            out["bps"] += min(cfg["limit"], len(M.of))
            out["facts"] += n
            if any(len(s.before) > 1 for _, s in M.of.values()):
                out["keys"].append(zlib.crc32(text.encode()))
        out["sample"] = {"table": text[:600], "breakpoints": len(M.of)}
        p.end()
    return out


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("random tables (as for C13); at every breakpoint: visible variables, newest definitions, constants, name resolution, delayed "
                "variables, assignments to a variable. non-trivial: some breakpoint sees two or more earlier statements")
    for case, r in ctx.pool(work, [f"C14/{ctx.seed}/{i}" for i in range(ctx.n(32, 240))], {"exe": exe, "n": ctx.n(8, 40), "limit": 60}):
        ctx.evaluations += r["facts"]
        ctx.nontrivial.update(r["keys"])
        for k in ("tables", "bps", "facts"):
            ctx.count({"bps": "breakpoints", "facts": "facts_compared"}.get(k, k), r[k])
        if len(ctx.samples) < 3:
            ctx.samples.append(r["sample"])
    return ctx.finish(1000, 50)
