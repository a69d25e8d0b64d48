"""C25: options that must not change what is reported"""
import random
import design as D
import scen as S
import e2e
from ctx import *

KNOWN = ["single_thread_mode", "log_enabled", "detach_after_disconnect", "use_hex_str", "perf_count", "use_signal_cache", "pause_at_posedge"]
FREE = ["single_thread_mode", "log_enabled", "perf_count", "use_signal_cache"]


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "json", "data", "delay", "many", "trigger"])
    if kind == "json":
        T = e2e.json_table(rng, cfg)
    elif kind == "many":
        T = D.flat_table(rng, n_insts=rng.randrange(20, 60), n_stmts=1, order="stmt", max_sub=12, ctx=False, n_mods=rng.choice([1, 1, 3]))
    else:
        T = D.flat_table(rng, data=kind == "data", delays=0.5 if kind == "delay" else 0, triggers=0.5 if kind == "trigger" else 0,
                         rich=kind == "flat")
    if not T.order:
        return None
    back = kind in ("flat", "json") and rng.random() < 0.5
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=kind == "flat", rewind=back and rng.random() < 0.7)
    try:
        s.vary_options = False
        s.start()
        opts = s.options_check(None)

        def change():
            k = rng.random()
            new = {o: rng.random() < 0.5 for o in rng.sample(FREE + ["use_hex_str"], rng.randrange(1, 5))}
            if k < 0.1:
                new["detach_after_disconnect"] = rng.random() < 0.5
            r = s.c.request("option-change", new)
            s.ok(r, True, "C25", f"option-change {new}")
            opts.update(new)
            s.use_hex = opts["use_hex_str"]
            s.stat("option_changes")
            if rng.random() < 0.3:
                s.options_check(opts)
        for _ in range(rng.randrange(1, 4)):
            change()
        for _ in range(rng.randrange(1, 5)):
            e2e.random_insert(s, rng)
            if kind == "data":
                e2e.random_data(s, rng)
        if rng.random() < 0.3 or kind == "many":
            e2e.insert_everything(s, rng)

        def stop(n):
            k = rng.random()
            if k < 0.3:
                change()
            elif k < 0.4:
                e2e.random_edit(s, rng)
            elif k < 0.55:
                e2e.random_write(s, rng, avoid_triggers=True)
            elif k < 0.65:
                e2e.random_eval(s, rng)
            if n > 150:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)

        def cmd(n):
            if not back or n > 50:
                return "continue"
            return rng.choices(["continue", "step_over", "step_back"] + (["reverse"] if s.entries else []), [6, 3, 1, 1][:4 if s.entries else 3])[0]
        edges = rng.randrange(4, 12)
        e2e.drive(s, rng, edges, stop, cmd)
        s.options_check(opts)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "key": f"{kind}/{len(T.order)}/{s.stats.get('option_changes')}/{s.reports}"}
    except S.Bad as e:
        # the same sessions pass without the options (C03, C04, C06, C08, C10)
        e.props = tuple(e.props) + ("C25",)
        raise
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "sessions of all kinds in which logging, performance counters, signal cache, single-thread mode and hexadecimal output are "
                            "switched at random while paused; reports, frames and evaluations stay what the model says, and the option information agrees")
