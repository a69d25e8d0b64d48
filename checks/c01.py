"""C01: expressions against the reference semantics, under ASan/UBSan"""
import random, zlib
import exprmodel as M
from probe import Probe
from host import Violation


def judge(item, r, tree, t):
    if tree is None:
        if r["correct"]:
            raise Violation(f"text outside the grammar is accepted: {t!r}")
        return
    if not r["correct"]:
        raise Violation(f"valid expression is refused: {t!r}")
    want = sorted(M.symbols(tree))
    if sorted(r["symbols"]) != want or r["size"] != len(want) or r["empty"] != (not want) or not r["found"]:
        raise Violation(f"symbols of {t!r}: {r['symbols']} instead of {want}")
    if r["expression"] != t:
        raise Violation(f"expression text of {t!r} is {r['expression']!r}")
    if "static" in item:
        req = sorted(s for s in want if s not in item["static"])
        if sorted(r["required"]) != req:
            raise Violation(f"required symbols of {t!r} with {item['static']}: {r['required']} instead of {req}")
    st = {k: v for k, v in item.get("static", {}).items() if k in want}
    for env, got in zip(item["envs"], r["values"]):
        exp = M.ev(tree, {**st, **env})
        if exp is not M.POISON and got != exp:
            raise Violation(f"{t!r} with {({**st, **env})} evaluates to {got} instead of {exp}")


def make(rng, kind):
    if kind == 0:
        tree = M.rtree(rng, rng.randrange(0, 6))
        t = M.text(tree, rng)
        t = rng.choice(["", " ", "\t "]) + t + rng.choice(["", " ", "\n"])
        tree2 = M.parse(t)
        assert tree2 == tree or tree2 is not None, (t, tree, tree2)
        assert M.symbols(tree2) == M.symbols(tree)
        return t, tree
    if kind == 1:
        t = M.rgarbage(rng)
    elif kind == 2:
        t = M.mutate(rng, M.text(M.rtree(rng, rng.randrange(0, 4)), rng))
    elif kind == 3:
        # every pair of binary operators, to pin precedence and associativity
        o = list(M.LEVEL)
        t = f"{rng.choice('-~!+')}a {rng.choice(o)} b1 {rng.choice(o)} {rng.choice('-~!+')}c {rng.choice(o)} d"
    elif kind == 4:
        n = rng.randrange(1, 120)
        o = rng.choice(["(", "!(", "-(", "~(", "!", "-", "+~"])
        t = o * n + "a" + ")" * (n * o.count("(") + rng.choice([0, 0, 0, -1, 1]))
        if rng.random() < 0.3:
            t = o * rng.randrange(1, 60)
    else:
        n = rng.randrange(1, 400)
        o = list(M.LEVEL)
        t = "".join(f"{rng.choice(['a', 'b', 'c[1]', '3'])}{rng.choice(o)}" for _ in range(n)) + "z"
    return t, M.parse(t)


def work(case, cfg):
    rng = random.Random(case)
    out = {"valid": 0, "invalid": 0, "evals": 0, "poison": 0, "keys": [], "sample": None}
    with Probe(cfg["exe"], timeout=60) as p:
        items, meta = [], []
        for i in range(cfg["n"]):
            t, tree = make(rng, rng.choices(range(6), [40, 15, 25, 12, 4, 4])[0])
            item = {"op": "expr", "text": t}
            if "\x00" in t or any(ord(c) > 127 for c in t):
                item = {"op": "expr", "text_hex": t.encode("utf-8").hex()}
            syms = sorted(M.symbols(tree)) if tree else []
            item["envs"] = []
            if tree:
                if rng.random() < 0.2:
                    item["static"] = {s: M.rvalue(rng) for s in syms + ["other"] if rng.random() < 0.4}
                dyn = [s for s in syms if s not in item.get("static", {})]
                for _ in range(rng.randrange(1, 5)):
                    item["envs"].append({s: M.rvalue(rng) for s in dyn})
            items.append(item)
            meta.append((t, tree))
        res = p.batch(items)
        for item, r, (t, tree) in zip(items, res, meta):
            judge(item, r, tree, t)
            if tree is None:
                out["invalid"] += 1
            else:
                out["valid"] += 1
                out["evals"] += len(item["envs"])
                if tree[0] in ("bin", "un"):
                    out["keys"].append(zlib.crc32(t.encode("utf-8", "surrogatepass")))
        out["sample"] = {"text": meta[0][0], "tree": str(meta[0][1])[:200], "reply": res[0]}
        p.end()
    return out


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("random expression trees printed with random spacing and parentheses, near-miss mutations, token garbage, deep nesting "
                "and long chains; non-trivial: valid and with at least one operator. Oracle: independent parser and 64-bit evaluator.")
    shards = ctx.n(40, 240)
    for case, r in ctx.pool(work, [f"C01/{ctx.seed}/{i}" for i in range(shards)], {"exe": exe, "n": ctx.n(1200, 3000)}):
        ctx.evaluations += r["valid"] + r["invalid"]
        ctx.nontrivial.update(r["keys"])
        ctx.count("texts_accepted", r["valid"])
        ctx.count("texts_refused", r["invalid"])
        ctx.count("evaluations_compared", r["evals"])
        if len(ctx.samples) < 4:
            ctx.samples.append(r["sample"])
    return ctx.finish(1000, 500)
