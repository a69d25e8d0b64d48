"""C07: evaluations and set-value requests"""
import random
import design as D
import scen as S
import e2e
from ctx import *


def values_agree(s, what):
    """the simulator holds what the model says, no more and no less was written"""
    v = s.host.ask("values")["v"]
    for n, x in v.items():
        m = (1 << s.leafw[n]) - 1
        if n != s.clock and (x & m) != (s.sim[n] & m):
            raise S.Bad("C07", f"after {what} the simulator holds {n} = {x & m} instead of {s.sim[n] & m}")
    s.stat("values_compared", len(v))


def scoped_write(s, rng):
    """through the variables of a breakpoint or an instance"""
    bp = rng.choice(list(s.T.bps.values()))
    ns = rng.choice(s.of(bp) if s.of(bp) and rng.random() < 0.8 else list(s.ns))
    if rng.random() < 0.6:
        names = [c for c in bp.ctx if not c[3]]
        scope = {"breakpoint_id": bp.id}
    else:
        names = [(n, v, r, 0) for n, v, r in s.T.gens.get(bp.inst, [])]
        scope = {"instance_id": bp.inst}
    if not names:
        return
    nm = rng.choice(names)
    same = [c for c in names if c[0] == nm[0]]
    use = same[-1] if "breakpoint_id" in scope else same[0]
    if any(c[3] for c in bp.ctx if c[0] == nm[0] or c[1] == nm[0]) or (len({c[:3] for c in same}) > 1 and "instance_id" in scope):
        return
    f = s.full(ns, bp.iname, use[1]) if use[2] else None
    if use[2] and f in s._sigs() and f not in s.sim:
        return
    ok = f is not None and f in s.sim
    if ok and not any(f.startswith(o + ".") for o in s.occ):
        return
    if ok and f.endswith(".clk"):
        return
    v = s.domain(rng, min(s.leafw[f], 31)) & ((1 << min(s.leafw[f], 31)) - 1) if ok else 1
    s.write(f if ok else nm[0], ns, v, ok, name=nm[0], **scope)


def bad_write(s, rng):
    good = rng.choice(s.writable)
    t, p = rng.choice([("set-value", {"var_name": "no.such", "value": 1, "namespace_id": 0}), ("set-value", {"var_name": good}),
                       ("set-value", {"value": 3}), ("set-value", {"var_name": good, "value": "x"}), ("set-value", {"var_name": 4, "value": 3}),
                       ("set-value", {"var_name": "top", "value": 1, "namespace_id": 0}),
                       ("set-value", {"var_name": "a", "value": 1, "breakpoint_id": 99999, "namespace_id": 0}),
                       ("set-value", {"var_name": "a", "value": 1, "instance_id": 99999, "namespace_id": 0}),
                       ("evaluation", {"expression": "1 +"}), ("evaluation", {"expression": "no_such_thing"}), ("evaluation", {"expression": 4}),
                       ("evaluation", {}), ("evaluation", {"expression": ""}), ("evaluation", {"expression": "no.such + 1", "breakpoint_id": s.T.order[0]})])
    s.ok(s.c.request(t, p), False, "C07", f"{t} request {p}")


def act(s, rng, k=None):
    for _ in range(k or rng.randrange(1, 6)):
        x = rng.random()
        if x < 0.55:
            e2e.random_eval(s, rng)
        elif x < 0.75:
            e2e.random_write(s, rng)
        elif x < 0.9:
            scoped_write(s, rng)
        else:
            bad_write(s, rng)
        if rng.random() < 0.4:
            values_agree(s, "the requests")


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["flat", "flat", "json"])
    T = e2e.json_table(rng, cfg) if kind == "json" else D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]), n_insts=rng.randrange(1, 6), rich=True)
    if not T.order:
        return None
    back = rng.random() < 0.25
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=True, rewind=back,
                  domain=(lambda r, w: r.getrandbits(w)) if rng.random() < 0.5 else None)
    try:
        s.start()
        cache = rng.random() < 0.5
        if cache:
            s.ok(s.c.request("option-change", {"use_signal_cache": True}), True, "C25", "option-change")
        if rng.random() < 0.6:
            act(s, rng)
        for _ in range(rng.randrange(1, 5)):
            e2e.random_insert(s, rng)
        if rng.random() < 0.4:
            e2e.insert_everything(s, rng)

        def stop(n):
            if n < 60:
                act(s, rng)
            if rng.random() < 0.1:
                s.ok(s.c.request("option-change", {"use_signal_cache": rng.random() < 0.5}), True, "C25", "option-change")
            if n > 80:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)

        def cmd(n):
            if n > 40:
                return "continue"
            return rng.choices(["continue", "step_over", "step_back" if back else "continue"], [5, 3, 2])[0]
        edges = rng.randrange(4, 12)
        e2e.drive(s, rng, edges, stop, cmd)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "key": f"{kind}/{len(T.order)}/{s.stats.get('evaluations')}/{s.reports}"}
    except S.Bad as e:
        if s.wrote:
            # what comes after a write at the same edge must follow it
            e.props = tuple(e.props) + ("C07",)
        raise
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 420, 6000,
                            "sessions in which evaluations and writes (by full name, through the variables of breakpoints and instances, and hopeless ones) "
                            "come in any order at start-up and while paused, signal cache on or off; every answer is compared with the model's value and "
                            "the simulator's whole state with the model's; later reports and frames must follow the written values")
