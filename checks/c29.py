"""C29: assertions that fail in the design are reported where they stand"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def failing(s, rng, taken):
    """one failing assertion, or a call that means nothing"""
    T = s.T
    b = T.bps[rng.choice(T.order)]
    if not s.of(b):
        return
    ns = rng.choice(s.of(b))
    mod = s.mapped(ns, b.iname)
    nums = [b.line, b.col] if b.col or rng.random() < 0.3 else [b.line]
    k = rng.random()
    if k < 0.06:
        s.fail_assert(mod, b.file, [9999] + nums[1:])
    elif k < 0.12:
        s.fail_assert(mod, "/no/such/file.sv", nums)
    elif k < 0.18:
        s.fail_assert(rng.choice(["tb", "", "nothing.at.all", mod + "x"]), b.file, nums)
    elif k < 0.22:
        s.fail_assert(mod, "", nums)
    elif k < 0.26:
        s.fail_assert(mod, b.file, [])
    else:
        at = [x for x in T.at(b.file, b.line, nums[1] if len(nums) > 1 else 0) if x.iname == b.iname]
        if len(at) != 1 or (b.id, ns) in taken:
            return
        taken.add((b.id, ns))
        s.fail_assert(mod, b.file, nums, b, ns)


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "json", "many", "stmt"])
    if kind == "json":
        T = e2e.json_table(rng, cfg)
    elif kind == "many":
        T = D.flat_table(rng, n_insts=rng.randrange(3, 9), order="stmt")
    elif kind == "stmt":
        T = D.flat_table(rng, cond_p=1.0)
    else:
        T = D.flat_table(rng)
    if not T.order:
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=False)
    try:
        s.check_frames = rng.random() < 0.5
        s.start()
        if rng.random() < 0.3:
            s.ok(s.c.request("option-change", {"single_thread_mode": True}), True, "C25", "option-change")
        for _ in range(rng.randrange(0, 5)):
            e2e.random_insert(s, rng)
        if rng.random() < 0.15:
            e2e.insert_everything(s, rng)
        step = rng.choice([0, 0, 0.1, 0.4])
        first = True
        total = 0
        for _ in range(rng.randrange(2, 8)):
            taken = set()
            for _ in range(rng.choice([0, 1, 1, 2, 5])):
                failing(s, rng, taken)
            n = rng.randrange(1, 4)
            total += n
            s.run(s.make_edges(n))
            if first:
                s.command("continue")
                first = False
            limit = 60
            while True:
                m = s.wait()
                if m is None:
                    s.over()
                    break
                s.take(m)
                if rng.random() < 0.1:
                    e2e.random_edit(s, rng, list_p=0)
                limit -= 1
                s.command("step_over" if limit > 0 and rng.random() < step else "continue")
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": total, "kind": kind, "key": f"{kind}/{len(T.order)}/{s.reports}/{s.stats.get('asserts')}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 400, 6000,
                            "random designs with several instances and occurrences whose assertions fail between edges (several at once, calls with wrong "
                            "locations, modules and arguments), mixed with inserted breakpoints, stepping and continuing; every message is compared with "
                            "the model's")
