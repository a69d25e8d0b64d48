"""C02: the set of inserted breakpoints follows the requests"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "flat", "json", "data"])
    if kind == "json":
        T = e2e.json_table(rng, cfg)
    else:
        T = D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]), data=kind == "data", cond_p=0.3, n_insts=rng.choice([None, None, 12]))
    if not T.order:
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]) if kind != "data" else rng.choice([1, 2]), rich=False)
    n = 0
    try:
        s.check_frames = False
        s.start()
        s.list_check()

        def edits(k):
            nonlocal n
            for _ in range(k):
                if kind == "data" and rng.random() < 0.35:
                    e2e.random_data(s, rng)
                elif rng.random() < 0.06:
                    e2e.insert_everything(s, rng)
                elif rng.random() < 0.06:
                    for e in list(s.entries):
                        if e.type == "normal":
                            s.req_remove_id(e.bp.id)
                elif rng.random() < 0.08:
                    e2e.malformed_bp(s, rng)
                else:
                    e2e.random_edit(s, rng, 0)
                n += 1
                if rng.random() < 0.6:
                    s.list_check()
            s.list_check()
        edits(rng.randrange(5, 30))
        if rng.random() < 0.7:
            s.run(s.make_edges(rng.randrange(3, 8)))
            s.command("continue")
            while True:
                m = s.wait()
                if m is None:
                    s.over()
                    break
                s.take(m)
                if rng.random() < 0.5:
                    edits(rng.randrange(1, 8))
                s.command(rng.choice(["continue", "continue", "continue", "step_over"]) if kind != "data" else "continue")
            edits(2)
        else:
            s.command("continue")
        s.host.finish()
        return {"reports": s.reports, "stats": {**s.stats, "requests": n}, "kind": kind, "key": f"{kind}/{len(T.order)}/{n}/{s.reports}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 500, 8000,
                            "random histories of insertions and removals by place, by id and of data breakpoints, before and during the simulation; "
                            "the debugger's list is compared with the model's after most requests, and what it reports with what is inserted")
