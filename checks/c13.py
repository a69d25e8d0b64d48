"""C13: symbol-table queries against an independent reading of the table file"""
import json, os, random, tempfile, zlib
import tablemodel as T, tablecheck as K
from probe import Probe


def work(case, cfg):
    rng = random.Random(case)
    out = {"tables": 0, "bps": 0, "queries": 0, "found": 0, "keys": [], "insts": 0, "sample": None}
    with Probe(cfg["exe"], timeout=60) as p, tempfile.TemporaryDirectory() as tmp:
        for i in range(cfg["n"]):
            t = T.Gen(rng, max_lines=rng.choice([3, 6, 12, 40])).table()
            m = T.Model(t)
            text = json.dumps(t, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1]))
            how = rng.choice(["parse", "parse", "load", "construct"])
            f = os.path.join(tmp, "t.json")
            if how != "parse":
                with open(f, "w") as g:
                    g.write(text)
            L = K.load(p, t, how, text, f)
            M = K.Matched(rng, L, m)
            q, found = K.check_locations(rng, L, m, M)
            K.check_misc(rng, L, m, M)
            L.free()
            out["tables"] += 1
            out["bps"] += len(M.of)
            out["insts"] += len(m.instances)
            out["queries"] += q
            out["found"] += found
            if len(m.instances) > 1 and len(M.of) > 3:
                out["keys"].append(zlib.crc32(text.encode()))
        out["sample"] = {"table": text[:600], "breakpoints": len(M.of), "instances": sorted(m.instances)[:5]}
        p.end()
    return out


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("random tables: module DAGs with shared and several top modules, nested blocks with conditions (also ||) and file names of "
                "their own, equal and missing lines and columns, references, reordering on and off. Oracle: an independent reading of the "
                "same table; conditions compared by value. non-trivial: more than one instance and more than three breakpoints")
    for case, r in ctx.pool(work, [f"C13/{ctx.seed}/{i}" for i in range(ctx.n(32, 240))], {"exe": exe, "n": ctx.n(12, 60)}):
        ctx.evaluations += r["queries"]
        ctx.nontrivial.update(r["keys"])
        for k in ("tables", "bps", "queries", "found", "insts"):
            ctx.count({"bps": "breakpoints_matched", "found": "breakpoints_returned", "insts": "instances"}.get(k, k), r[k])
        if len(ctx.samples) < 3:
            ctx.samples.append(r["sample"])
    return ctx.finish(1000, 50)
