"""C24: a design that occurs several times"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "json", "data", "delay"])
    if kind == "json":
        T = e2e.json_table(rng, cfg, tops=0.5)
    else:
        tops = rng.choice([1, 1, 2, 3])
        T = D.flat_table(rng, data=kind == "data", delays=0.5 if kind == "delay" else 0, n_insts=rng.randrange(1, 6) + tops, tops=tops)
    if not T.order:
        return None
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.randrange(2, 6) if len(T.tops) == 1 else rng.randrange(1, 4), rich=False, tb_depth=rng.randrange(0, 5), rewind=kind != "data" and rng.random() < 0.4)
    try:
        s.start()
        for _ in range(rng.randrange(1, 5)):
            e2e.random_insert(s, rng)
            if kind == "data":
                e2e.random_data(s, rng)
        if rng.random() < 0.2:
            e2e.insert_everything(s, rng)

        def stop(n):
            k = rng.random()
            if k < 0.15:
                e2e.random_edit(s, rng)
            elif k < 0.3:
                e2e.random_write(s, rng)
            elif k < 0.5:
                e2e.random_eval(s, rng)
            elif k < 0.6 and kind == "data":
                e2e.random_data(s, rng)
            elif k < 0.65:
                s.list_check()
            if n > 150:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)

        def cmd(n):
            if kind in ("data", "delay") or n > 50:
                return "continue"
            return rng.choices(["continue", "step_over", "step_back"] + (["reverse"] if s.entries else []), [6, 3, 1, 1][:4 if s.entries else 3])[0]
        edges = rng.randrange(3, 10)
        e2e.drive(s, rng, edges, stop, cmd)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "key": f"{kind}/{len(T.order)}/{len(s.ns)}/{s.reports}"}
    except S.Bad as e:
        # everything here happens with several instances
        e.props = tuple(e.props) + (("C24",) if not set(e.props) & {"C11"} else ())
        raise
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "tables whose top occurs two to five times at random places of the hierarchy, with random values of their own; reports, frames, "
                            "evaluations, writes and data breakpoints are judged for each namespace")
