"""C09: monitors"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "json"])
    T = e2e.json_table(rng, cfg) if kind == "json" else D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]), n_insts=rng.randrange(1, 6), rich=True)
    if not T.order:
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=True, change_p=rng.choice([0.05, 0.2, 0.5]))
    try:
        s.start()
        s.watcher(s.c)
        for _ in range(rng.choice([0, 0, 1, 2])):
            s.watcher(s.host.client())
        if rng.random() < 0.3:
            s.ok(s.c.request("option-change", {"use_signal_cache": True}), True, "C25", "option-change")
        for _ in range(rng.randrange(0, 4)):
            e2e.random_insert(s, rng)
        for _ in range(rng.randrange(0, 8)):
            e2e.random_watch(s, rng)

        def stop(n):
            for _ in range(rng.randrange(0, 4) if n < 40 else 0):
                k = rng.random()
                if k < 0.7:
                    e2e.random_watch(s, rng)
                elif k < 0.85:
                    e2e.random_write(s, rng)
                elif k < 0.95:
                    e2e.random_edit(s, rng)
                else:
                    s.set_hex(not s.use_hex)
            if n > 60:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)

        def cmd(n):
            return rng.choices(["continue", "step_over"], [4, 1])[0] if n < 40 else "continue"
        edges = rng.randrange(4, 14)
        e2e.drive(s, rng, edges, stop, cmd)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges,
                "key": f"{kind}/{len(T.order)}/{s.stats.get('watches')}/{s.stats.get('monitor_values')}/{s.reports}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "sessions with one to three clients that watch names of all kinds in all three ways, remove watches, insert breakpoints and "
                            "write values at any time; every client's monitor messages are compared, occasion by occasion, with the values due")
