"""C04: stepping and reversing visit what the model in lib/scen.py says"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "flat", "json", "many", "never", "triggers"])
    if kind == "json":
        T = e2e.json_table(rng, cfg)
    elif kind == "many":
        T = D.flat_table(rng, n_insts=rng.randrange(5, 10), n_stmts=2, order="stmt")
    elif kind == "never":
        # some edges without anything that holds
        T = D.flat_table(rng, cond_p=1.0, n_insts=rng.randrange(1, 3))
    elif kind == "triggers":
        # (stepping does not look at them)
        T = D.flat_table(rng, triggers=0.5)
    else:
        T = D.flat_table(rng)
    if not T.order:
        return None
    rewind = kind != "triggers" and rng.random() < 0.6
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=False, rewind=rewind)
    try:
        s.check_frames = rng.random() < 0.3
        s.start()
        if rng.random() < 0.3:
            s.ok(s.c.request("option-change", {"single_thread_mode": True}), True, "C25", "option-change")
        for _ in range(rng.randrange(0, 4)):
            e2e.random_insert(s, rng)
        if rng.random() < 0.2:
            e2e.insert_everything(s, rng)
        edges = rng.randrange(4, 12)
        s.run(s.make_edges(edges))
        s.command(rng.choice(["continue", "step_over"]) if s.entries else "step_over")
        limit = rng.randrange(20, 120)
        seen = set()
        jump = rng.choice([0, 0, 0.05, 0.3])
        w = {"step_over": rng.choice([1, 5]), "continue": rng.choice([0, 1]), "step_back": rng.choice([0, 1, 4]), "reverse": rng.choice([0, 1, 3])}
        if kind == "triggers":
            # forward only
            w, jump = {"step_over": rng.choice([1, 3]), "continue": 1}, 0
        while True:
            m = s.wait()
            if m is None:
                s.over()
                break
            s.take(m)
            seen.add((s.edge, s.cur))
            if rng.random() < 0.1:
                e2e.random_edit(s, rng)
            if rng.random() < 0.04:
                e2e.random_write(s, rng, kind == "triggers")
            limit -= 1
            if limit <= 0:
                cmd = "continue" if not s.entries or rng.random() < 0.5 else "step_over"
                if limit < -300:
                    for e in list(s.entries):
                        s.req_remove_id(e.bp.id)
                    cmd = "continue"
            else:
                cmd = rng.choices(list(w), [x + 0.05 for x in w.values()])[0]
                if cmd == "reverse" and not s.entries:
                    cmd = "step_back"
            if s.mode in ("continue", "step_over") and limit > 0 and rng.random() < jump:
                # to an edge, next to one, the current time, the future, or before everything
                s.jump(rng.choice([s.tunit * rng.randrange(0, edges + 2) + rng.choice([0, 1, s.tunit // 2]), s.time(), s.time() + 1, 0, 2**40, 2**64 - 1]))
            else:
                s.command(cmd)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "kind": kind + ("/rewind" if rewind else ""),
                "key": f"{kind}/{rewind}/{len(T.order)}/{s.reports}/{len(seen)}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 500, 8000,
                            "random designs and random sequences of step over, step back, continue and reverse continue, with simulators that can and "
                            "that cannot go back in time, mixed with insertions, removals and written values; every stop is compared with the model's")
