"""C08: data breakpoints"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    T = D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]), data=True, n_insts=rng.randrange(1, 5), cond_p=rng.choice([0, 0.3, 0.7]))
    if not T.order or not any(b.assigned for b in T.bps.values()):
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), rich=False, change_p=rng.choice([0.1, 0.3, 0.5]))
    try:
        s.check_frames = rng.random() < 0.3
        s.start()
        if rng.random() < 0.3:
            s.ok(s.c.request("option-change", {"single_thread_mode": True}), True, "C25", "option-change")
        for _ in range(rng.randrange(1, 5)):
            e2e.random_data(s, rng)
        for _ in range(rng.randrange(0, 3)):
            e2e.random_insert(s, rng)

        def stop(n):
            k = rng.random()
            if k < 0.2:
                e2e.random_data(s, rng)
            elif k < 0.3:
                e2e.random_edit(s, rng)
            elif k < 0.36:
                e2e.random_write(s, rng)
            elif k < 0.4:
                s.list_check()
            elif k < 0.44:
                e2e.stray_unwatch(s, rng)
        edges = rng.randrange(8, 25)
        e2e.drive(s, rng, edges, stop)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "key": f"{len(T.order)}/{s.reports}/{s.stats.get('hit')}/{s.stats.get('nohit')}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 600, 10000,
                            "random tables whose variables are assigned at several statements (one signal or one per statement), random data breakpoints "
                            "with conditions, information, removal and clear requests before and during the simulation, values that change rarely; "
                            "every report and every absence is judged by the last values seen")
