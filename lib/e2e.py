"""Pieces the checks on live sessions share"""
import collections, json, os, random, re, sys
import design as D
import scen as S
import tablemodel as TM
from host import Violation, Hang, HarnessError
from probe import Probe

_probe = None


def probe(cfg):
    global _probe
    if _probe is None:
        _probe = Probe(cfg["probe"])
    return _probe


def json_table(rng, cfg, tops=False, **kw):
    for _ in range(50):
        g = TM.Gen(rng, sigs=lambda m: list(D.SIGS), own_sigs=True, multi_top=tops, index=False, delay=kw.pop("delay", False), max_mods=4, max_insts=8,
                   **kw)
        t = g.table()
        t.pop("attributes", None)
        T = D.dump(probe(cfg), t)
        if not 0 < len(T.order) <= 80 or any(not simple_cond(b.cond) for b in T.bps.values()):
            continue
        return T
    return D.flat_table(rng)


IDENT = re.compile(r"[A-Za-z_]\w*(\.[A-Za-z_]\w*)*")


def simple_cond(c):
    import exprmodel as X
    if not c:
        return True
    t = X.parse(c)
    return t is not None and all(s in D.SIGS for s in X.symbols(t))


def user_cond(rng, s, b):
    """a user condition that can be evaluated at b (mostly)"""
    if rng.random() < 0.5:
        return None
    names = list(D.SIGS)
    if b is not None:
        for n, v, rtl, d in b.ctx:
            if IDENT.fullmatch(n) and not any(c[3] for c in b.ctx if c[0] == n):
                r = s.resolve(n, (s.of(b) or [0])[0], b)
                if r is not None:
                    names += [n, n]
    k = rng.random()
    if k < 0.06:
        return rng.choice(["nosuch", "nosuch == 1 && s0", "s0 +", "1 1", "(s0"])
    if k < 0.12:
        return f"$time > {rng.randrange(20, 120) * s.tunit // 10}"
    if k < 0.16 and b is not None:
        return f"$instance == {rng.choice([b.inst, b.inst, 0])}"
    return D.cond_text(rng, names, 1.0) or None


def cond_ok(s, c, bps):
    """conditions of names that mean different things, or nothing, at the breakpoints concerned"""
    return True


def pick_loc(s, rng):
    f, l, c = rng.choice(s.T.locs)
    k = rng.random()
    if k < 0.15:
        return f, None, None
    if k < 0.5:
        return f, l, None
    if k < 0.6:
        return f, l, 0
    return f, l, c or None


def random_insert(s, rng):
    if rng.random() < 0.65:
        f, l, c = pick_loc(s, rng)
        if l is None:
            l = rng.choice(s.T.locs)[1]
        bps = s.T.at(f, l, c or 0)
        cond = user_cond(rng, s, rng.choice(bps) if bps else None)
        return s.req_add(f, l, c, cond)
    b = rng.choice(list(s.T.bps.values()))
    return s.req_add_id(b.id, user_cond(rng, s, b))


def insert_everything(s, rng):
    for f, l, c in s.T.locs:
        s.req_add(f, l, c or None)


def stray_unwatch(s, rng):
    """ends a watch that no client asked for: nothing happens"""
    ns = rng.randrange(len(s.occ))
    for t in rng.sample(range(12), 4):
        if (ns, t) not in s.monitors:
            s.ok(s.c.request("monitor", {"action_type": "remove", "track_id": t, "namespace_id": ns}), True, "C09", f"removal of monitor {t}, which is not there")
    s.stat("stray_removals")


def random_edit(s, rng, list_p=0.3):
    k = rng.random()
    if k < 0.5:
        random_insert(s, rng)
    elif k < 0.75 and s.entries:
        e = rng.choice(s.entries)
        if rng.random() < 0.5:
            s.req_remove(e.bp.file, e.bp.line, rng.choice([None, e.bp.col or None]))
        else:
            s.req_remove_id(e.bp.id)
    elif k < 0.82:
        s.req_remove(rng.choice(s.T.files), 9999)
    elif k < 0.9:
        ids = set(s.T.bps)
        s.req_remove_id(rng.choice([i for i in (0, 1, 77777, 2**32 - 1) if i not in ids]))
    elif k < 0.96:
        s.req_add("/no/such/file.py", 3)
    else:
        s.req_add_id(88888)
    if rng.random() < list_p:
        s.list_check()


def malformed_bp(s, rng):
    """requests that must be refused and change nothing"""
    f, l, c = rng.choice(s.T.locs)
    t, p = rng.choice([("breakpoint", {"action": "add", "line_num": l}), ("breakpoint", {"filename": f, "line_num": l}),
                       ("breakpoint", {"filename": f, "line_num": str(l), "action": "add"}),
                       ("breakpoint", {"filename": f, "line_num": l, "action": "toggle"}),
                       ("breakpoint", {"filename": 3, "line_num": l, "action": "remove"}),
                       ("breakpoint-id", {"action": "remove"}), ("breakpoint-id", {"id": "x", "action": "add"}), ("breakpoint-id", {"id": s.T.order[0]}),
                       ("breakpoint-id", {"id": -1, "action": "remove"})])
    s.ok(s.c.request(t, p), False, ("C02", "C11"), f"malformed {t} request {p}")


def random_data(s, rng):
    ids = list(s.T.bps)
    ns = rng.choice([None, 0, 0, len(s.ns) - 1]) if len(s.ns) == 1 else rng.choice([None, 0, 0, 1, len(s.ns) - 1])
    k = rng.random()
    if k < 0.6:
        var = rng.choice(["da", "db", "dc", "nosuch"]) if rng.random() < 0.15 else rng.choice(["da", "db", "dc"])
        cand = [b.id for b in s.T.bps.values() if var in b.assigned] or ids
        b = rng.choice(cand if rng.random() < 0.9 else ids)
        s.req_data("add", b, var, s.data_cond(var), ns)
    elif k < 0.7:
        var = rng.choice(["da", "db", "dc", "da", "db", "dc", "zz"])
        cand = [b.id for b in s.T.bps.values() if var in b.assigned] or ids
        s.req_data("info", rng.choice(cand if rng.random() < 0.7 else ids), var, s.data_cond(var) if rng.random() < 0.6 else None, ns)
    elif k < 0.93:
        d = [e for e in s.entries if e.type == "data"]
        e = rng.choice(d) if d else None
        s.req_data("remove", e.bp.id if e else rng.choice(ids), e.var if e else "da", None, e.ns if e and rng.random() < 0.8 else ns)
    else:
        s.req_data("clear")


def random_eval(s, rng):
    """an evaluation request and what it must be answered with"""
    ns = rng.randrange(len(s.ns))
    of = None
    k = rng.random()
    p = {"namespace_id": ns}
    bp = iname = None
    if k < 0.5:
        bp = rng.choice(list(s.T.bps.values()))
        if any(c[3] for c in bp.ctx):
            bp = None
        else:
            p["breakpoint_id"] = bp.id
            of = s.of(bp)
            names = D.SIGS + [c[0] for c in bp.ctx if IDENT.fullmatch(c[0])] + [g[0] for g in s.T.gens.get(bp.inst, []) if IDENT.fullmatch(g[0])]
    if bp is None and k < 0.8:
        iid, iname = rng.choice(list(s.T.insts.items()))
        p["instance_id"] = iid
        of = [n for n in s.ns if s.nstop[n] == iname.split(".")[0]]
        names = D.SIGS + [g[0] for g in s.T.gens.get(iid, []) if IDENT.fullmatch(g[0])]
    elif bp is None:
        # names of the table, of the simulator, or nothing known
        names = []
        for n in rng.sample(s.writable, min(len(s.writable), 6)):
            x = next(i for i, o in s.ns.items() if n.startswith(o + "."))
            names.append(n if rng.random() < 0.4 else s.nstop[x] + n[len(s.ns[x]):])
        if not names:
            return
    if of is not None and rng.random() < 0.8:
        # where the scope occurs; a scope that occurs once needs no namespace
        if len(of) == 1 and rng.random() < 0.5:
            ns = of[0]
            del p["namespace_id"]
        elif of:
            ns = p["namespace_id"] = rng.choice(of)
    # whole arrays and structures have no value
    names = [n for n in names if not s.aggregate(n, ns, bp, iname)]
    if rng.random() < 0.05:
        names = names + ["nosuch", "top.nosuch"]
    a, b = rng.choice(names), rng.choice(names)
    e = rng.choice([a, f"{a} + {b}", f"{a} == {b}", f"{a} * 2 - {b}", f"{a} && {b}", f"{a} - 1", f"({a} & 6) ^ {b}", f"{a} < {b}",
                    f"{a} || {b}", f"{a} % 7", "1 + 2", f"!{a}", f"~{a}", "$time", f"{a} +", "1 1"] +
                   (["$instance", f"{a} + $instance"] if bp or iname else []))
    p["expression"] = e
    want = s.ev(e, ns, bp, iname)
    if of is None and want is None:
        # names of another top
        want = next((x for x in (s.ev(e, n) for n in s.ns) if x is not None), None)
    r = s.c.request("evaluation", p)
    what = f"evaluation {p}"
    s.stat("evaluations")
    props = ("C07", "C24") if len(s.ns) > 1 else ("C07",)
    if want is None:
        s.stat("eval_errors")
        s.ok(r, False, props, what)
    else:
        s.ok(r, True, props, what)
        if r["payload"]["result"] != str(want):
            raise S.Bad(props, f"{what} gives {r['payload']['result']} instead of {want}",
                        {"ctx": bp and bp.ctx, "gens": s.T.gens, "ns": s.ns})


def random_write(s, rng, avoid_triggers=False):
    names = list(s.writable)
    if avoid_triggers:
        trig = {t for b in s.T.bps.values() for t in b.trigger}
        names = [n for n in names if n.rsplit(".", 1)[1] not in trig]
    if not names:
        return
    n = rng.choice(names)
    ns = next(i for i, o in s.ns.items() if n.startswith(o + "."))
    local = s.nstop[ns] + n[len(s.ns[ns]):]
    inst, sig = local.rsplit(".", 1)
    iid = next((i for i, x in s.T.insts.items() if x == inst), None)
    v = s.domain(rng, min(s.leafw[n], 31)) & ((1 << min(s.leafw[n], 31)) - 1)
    gens = [g for g, x, r in s.T.gens.get(iid, []) if r and g != sig and s.resolve(g, ns, iname=inst) == n]
    if iid is not None and gens and rng.random() < 0.5:
        s.write(n, ns, v, name=rng.choice(gens), instance_id=iid)
    else:
        s.write(n, ns, v, name=local)


def pick_name(s, rng, bad=0.1):
    """a name with its scope and the leaf it stands for (None if there is none), or None"""
    k = rng.random()
    if k < bad:
        return rng.choice([({"var_name": "no.such", "namespace_id": 0}, None), ({"var_name": "", "namespace_id": 0}, None),
                           ({"var_name": "top", "namespace_id": 0}, None),
                           ({"var_name": "a", "breakpoint_id": 99999, "namespace_id": 0}, None),
                           ({"var_name": "a", "instance_id": 99999, "namespace_id": 0}, None)])
    if k < 0.55:
        n = rng.choice(s.writable)
        ns = next(i for i, o in s.ns.items() if n.startswith(o + "."))
        return {"var_name": n if rng.random() < 0.3 and ns == 0 else s.nstop[ns] + n[len(s.ns[ns]):], "namespace_id": ns}, n
    bp = rng.choice(list(s.T.bps.values()))
    ns = rng.choice(s.of(bp) if s.of(bp) and rng.random() < 0.8 else list(s.ns))
    if rng.random() < 0.6:
        names = [c for c in bp.ctx if not c[3]]
        scope = {"breakpoint_id": bp.id}
    else:
        names = [(n, v, r, 0) for n, v, r in s.T.gens.get(bp.inst, [])]
        scope = {"instance_id": bp.inst}
    if not names:
        return None
    nm = rng.choice(names)
    same = [c for c in names if c[0] == nm[0]]
    use = same[-1] if "breakpoint_id" in scope else same[0]
    if any(c[3] for c in bp.ctx if c[0] == nm[0] or c[1] == nm[0]) or (len({c[:3] for c in same}) > 1 and "instance_id" in scope):
        return None
    f = s.full(ns, bp.iname, use[1]) if use[2] else None
    if use[2] and f in s._sigs() and f not in s.sim:
        return None
    ok = f is not None and f in s.sim
    if ok and (not any(f.startswith(o + ".") for o in s.occ) or f.endswith(".clk")):
        return None
    return {"var_name": nm[0], "namespace_id": ns, **scope}, f if ok else None


def random_watch(s, rng):
    w = rng.choice(s.watchers)
    if s.monitors and rng.random() < 0.25:
        s.req_unwatch(w, rng.choice(list(s.monitors)))
        return
    x = pick_name(s, rng, 0.08)
    if x is None:
        return
    p, leaf = x
    p["monitor_type"] = rng.choice(["breakpoint", "clock_edge", "changed"])
    if len(s.ns) == 1 and "namespace_id" in p and rng.random() < 0.3:
        del p["namespace_id"]
    s.req_monitor(w, p, leaf)


def run_sessions(ctx, fn, quick, thorough, rule, props=None, variant="asan", count=None, min_eval=20, min_nontrivial=5, chunk=None):
    bins = ctx.build(variant, "simhost", "probe") if variant == "asan" else {**ctx.build(variant, "simhost"), **{"probe": ctx.build("asan", "probe")["probe"]}}
    ctx.rule = rule
    n = ctx.n(quick, thorough)
    cfg = {"exe": bins["simhost"], "probe": bins["probe"], "prop": ctx.prop}
    cases = [f"{ctx.prop}/{ctx.seed}/{i}" for i in range(n)]
    for case, r in ctx.pool(wrap(fn), cases, cfg):
        if r is None:
            continue
        if "other" in r:
            ctx.count("stopped_by_another_property")
            ctx.inconclusive.append(f"{case}: {r['other'][:300]}")
            continue
        ctx.case(r["key"], {"case": case, **{k: v for k, v in r.items() if k != "key"}})
        for k, v in r.get("stats", {}).items():
            ctx.count(k, v)
        ctx.count("reports", r.get("reports", 0))
        ctx.count("edges", r.get("edges", 0))
    return ctx.finish(min_eval, min_nontrivial)


REPORTS = {"C02", "C03", "C04", "C06", "C08", "C24"}
# whose deviations, in a session made for a property, break what that property promises the user of this session: a wrong set of
# breakpoints shows in wrong reports and the other way round, a write is promised to be seen by conditions and frames, and options,
# other clients' messages, occurrences of the design and remote tables are promised to change nothing at all
RELATED = {
    "C02": {"C03", "C08", "C24"}, "C03": {"C02", "C08", "C24"}, "C04": {"C02", "C03", "C24"}, "C05": {"C03", "C04", "C26", "C11"},
    "C06": {"C10", "C14", "C24", "C03"}, "C07": {"C06", "C03", "C24"}, "C08": {"C02", "C03", "C24"}, "C09": {"C24", "C26", "C18"},
    "C10": {"C06", "C14"}, "C11": REPORTS | {"C05", "C07", "C09", "C25", "C26"}, "C14": {"C06"}, "C21": REPORTS | {"C07", "C09", "C14"},
    "C22": REPORTS, "C24": REPORTS | {"C07", "C09"}, "C25": REPORTS | {"C05", "C07", "C09"}, "C26": {"C05", "C03", "C09", "C02"},
    "C29": {"C03", "C02", "C04", "C06", "C24"},
    "C30": {"C02", "C03", "C11", "C24", "C25"},
}


class wrap:
    """a deviation counts for the properties it concerns; crashes and hangs count for every one"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, case, cfg):
        try:
            return self.fn(case, cfg)
        except S.Bad as e:
            if cfg["prop"] in e.props or RELATED.get(cfg["prop"], set()) & set(e.props):
                raise
            return {"other": f"{e.props}: {e.what}"}


def resync(s, good="unused", props=("C11", "C26")):
    """whatever happened before: from here on the session is judged again, with nothing inserted and nothing watched"""
    h, c, T = s.host, s.c, s.T
    r = c.request("connection", {"db_filename": good})
    if r["status"] != "success":
        raise S.Bad(props, f"a valid symbol table is refused: {r}")
    # (whatever command came last is still the mode of the next evaluation)
    c.request("command", {"command": "continue"})
    for k in ("single_thread_mode", "use_hex_str", "perf_count", "pause_at_posedge"):
        c.request("option-change", {k: False})
    c.request("option-change", {"use_signal_cache": True, "log_enabled": False})
    for ns, occ in enumerate(s.occ):
        # numbers only grow: a new watch tells how many there can be (one that is there already keeps its number, so
        # remove it and ask again)
        done = 0
        for _ in range(2):
            r = c.request("monitor", {"action_type": "add", "monitor_type": "clock_edge", "var_name": s.clock, "namespace_id": ns})
            top = r["payload"]["track_id"] if r["status"] == "success" else 400
            for t in [*range(done, top), top]:
                c.request("monitor", {"action_type": "remove", "track_id": t, "namespace_id": ns})
            done = max(done, top)
    for b in T.bps:
        c.request("breakpoint-id", {"id": b, "action": "remove"})
    c.request("data-breakpoint", {"action": "clear"})
    l = c.request("debugger-info", {"command": "breakpoints"})
    if l["status"] != "success" or l["payload"]["breakpoints"]:
        raise S.Bad(props, f"breakpoints are left after all were removed: {l}")
    s.design()
    c.async_msgs.clear()
    # take the values as they are now
    s.sim.update({n: v for n, v in h.ask("values")["v"].items()})
    s.sim[s.clock] = 1
    k0 = h.progress()["cur"]
    s.plan = [{} for _ in range(k0 + 1)]
    s.snaps = [dict(s.sim) for _ in range(k0 + 1)]
    s.edge = k0
    s.cur = len(T.order)
    s.hist = []
    s.check_frames = False
    s.edge_over = True
    s.batches = []
    s.amb = {}
    s.last_hi = -1
    s.entries = []
    s.monitors = {}
    s.paused_at = None
    s.resynced = True


def connect_again(s, rng, props):
    """after the edges are over: a new connection to the same table (of a file), and everything starts from nothing"""
    resync(s, getattr(s, "table_uri", os.path.join(s.host.dir, "table.json")), props)
    s.born = {}
    s.use_hex = False
    s.check_frames = True
    s.stat("connected_again")


def drive(s, rng, edges, on_stop=None, cmd=None, first="continue", quiet=0.1):
    """runs the edges and answers every stop; on_stop(n) is called while paused"""
    # (a simulation that has run before does not wait for the command)
    if s.resynced:
        s.command(first)
    s.run(s.make_edges(edges, quiet))
    if not s.resynced:
        s.command(first)
    n = 0
    while True:
        m = s.wait()
        if m is None:
            s.over()
            return n
        s.take(m)
        n += 1
        if on_stop:
            on_stop(n)
        s.command(cmd(n) if cmd else "continue")
