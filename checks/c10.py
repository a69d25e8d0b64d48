"""C10: delayed variables"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    if rng.random() < 0.35:
        T = e2e.json_table(rng, cfg, delay=True)
    else:
        T = D.flat_table(rng, delays=0.7, rich=rng.random() < 0.3, n_insts=rng.randrange(1, 5), cond_p=0.4)
    if not any(c[3] for b in T.bps.values() for c in b.ctx):
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), change_p=rng.choice([0.3, 0.6, 0.9]),
                  domain=(lambda r, w: r.getrandbits(w)) if rng.random() < 0.5 else None)
    try:
        s.start()
        if rng.random() < 0.6:
            e2e.insert_everything(s, rng)
        for _ in range(rng.randrange(0, 4)):
            e2e.random_insert(s, rng)

        def stop(n):
            k = rng.random()
            if k < 0.15:
                e2e.random_insert(s, rng)
            elif k < 0.22:
                e2e.random_edit(s, rng)
            elif k < 0.27:
                s.set_hex(not s.use_hex)
            elif k < 0.3:
                e2e.random_write(s, rng)
            elif k < 0.33:
                e2e.stray_unwatch(s, rng)
            if n > 200:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)
        edges = rng.randrange(8, 25)
        e2e.drive(s, rng, edges, stop)
        if not T.flat and rng.random() < 0.6 and not s.rewound:
            e2e.connect_again(s, rng, "C10")
            if rng.random() < 0.7:
                e2e.insert_everything(s, rng)
            for _ in range(rng.randrange(0, 3)):
                e2e.random_insert(s, rng)
            e2e.drive(s, rng, rng.randrange(5, 12), stop)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "key": f"{len(T.order)}/{s.reports}/{s.stats.get('delay_judged')}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "random tables with delayed variables of depth 1 to 4 shared between breakpoints, breakpoints inserted, inserted again and "
                            "removed at any time; every delayed value shown once the breakpoint was inserted long enough is compared with the recorded history")
