"""C06: the frames of every report"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["rich", "rich", "json", "plain"])
    product = "RTLMock"
    if kind == "json":
        T = e2e.json_table(rng, cfg)
    elif kind == "rich":
        T = D.flat_table(rng, rich=True, cond_p=0.2, n_stmts=rng.randrange(1, 4))
    else:
        product = rng.choice(["RTLMock", "iverilog", "Chronologic Simulation VCS Release ", "Xcelium"])
        T = D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]), cond_p=0.3)
    if not T.order:
        return None
    rewind = rng.random() < 0.3
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), rich=kind == "rich", rewind=rewind, product=product,
                  domain=(lambda r, w: r.getrandbits(w)) if rng.random() < 0.6 else None)
    try:
        s.start()
        if rng.random() < 0.5:
            e2e.insert_everything(s, rng)
        else:
            for _ in range(rng.randrange(1, 5)):
                e2e.random_insert(s, rng)

        def stop(n):
            if rng.random() < 0.15:
                s.set_hex(not s.use_hex)
            if rng.random() < 0.1:
                e2e.random_write(s, rng)

        def cmd(n):
            if n > 150:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)
                return "continue"
            if n > 60:
                return "continue"
            return rng.choices(["continue", "step_over", "step_back"] + (["reverse"] if s.entries else []), [6, 3, 1, 1][:4 if s.entries else 3])[0]
        if rng.random() < 0.4:
            s.set_hex(True)
        edges = rng.randrange(3, 9)
        e2e.drive(s, rng, edges, stop, cmd)
        if not T.flat and rng.random() < 0.4 and not rewind and not s.rewound:
            e2e.connect_again(s, rng, "C06")
            e2e.insert_everything(s, rng)
            e2e.drive(s, rng, rng.randrange(2, 5), stop, cmd)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "kind": kind + "/" + product, "key": f"{kind}/{len(T.order)}/{s.reports}/{s.stats.get('vars')}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "random tables and designs with arrays, packed arrays, memories, structures, constants, missing signals, generator variables; "
                            "every frame of every report (continuing, stepping, going back) is compared with the values the simulator holds, in decimal "
                            "and hexadecimal")
