"""C03: what continuing reports, edge by edge, against the model in lib/scen.py"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["small", "small", "small", "many", "order", "json", "trigger"])
    kw = {}
    if kind == "many":
        T = D.flat_table(rng, n_insts=rng.randrange(18, 60), n_stmts=rng.randrange(1, 4), order=rng.choice(["stmt", "stmt", "inst", "random"]),
                         max_sub=12, ctx=False, n_mods=rng.choice([1, 1, 3]))
        kw["domain"] = lambda r, w: r.choice([0, 1, 1, 2])
    elif kind == "json":
        T = e2e.json_table(rng, cfg)
    elif kind == "trigger":
        T = D.flat_table(rng, triggers=0.6)
    elif kind == "order":
        T = D.flat_table(rng, n_insts=rng.randrange(2, 8), order="stmt", cond_p=0.3)
    else:
        T = D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]))
    if not T.order:
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=False, **kw)
    try:
        s.check_frames = False
        s.start()
        if rng.random() < 0.3:
            r = s.c.request("option-change", {"single_thread_mode": True})
            s.ok(r, True, "C25", "option-change")
        n = 0
        for _ in range(rng.randrange(1, 6)):
            e2e.random_insert(s, rng)
        if kind == "many" or rng.random() < 0.3:
            e2e.insert_everything(s, rng)
        edges = rng.randrange(6, 18)
        s.run(s.make_edges(edges))
        s.command("continue")
        while True:
            m = s.wait()
            if m is None:
                s.over()
                break
            s.take(m)
            k = rng.random()
            if k < 0.35:
                for _ in range(rng.randrange(1, 3)):
                    e2e.random_edit(s, rng)
            elif k < 0.42:
                e2e.random_write(s, rng, avoid_triggers=True)
            s.command("continue")
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "kind": kind, "key": f"{kind}/{len(T.order)}/{s.reports}/{s.stats.get('hit')}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "random symbol tables (also with more breakpoints of one statement than the batch size, random execution orders, "
                            "triggers, JSON tables, several occurrences of the design), random insertions and conditions, random values; every "
                            "report and every absence of a report is judged against the values of the edge")
