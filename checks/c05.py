"""C05: when the simulation stands still and when it runs"""
import random, time
import design as D
import scen as S
import e2e
from ctx import *
from host import Client

RESUME = ("continue", "step_over")
BAD_TEXTS = ["", "{", "[]", "null", "42", '{"request": true}', '{"request": true, "type": "command"}', '{"request": "x", "type": 3}',
             '{"request": true, "type": "continue"}', '"continue"', "continue"]


def harmless(rng, c, s):
    """one request that must not resume anything"""
    k = rng.randrange(13)
    if k == 0:
        c.ws.send(rng.choice(BAD_TEXTS))
    elif k == 1:
        c.ws.send('{"request": true, "type": "command", "payload": %s}' % rng.choice(
            ["{}", "null", "[]", '{"command": "go"}', '{"command": 1}', '{"command": null}', '{"command": "Continue"}', '{"command": "continue "}',
             '{"command": "jump"}', '{"command": "jump", "time": -1}', '{"command": "jump", "time": "5"}', '{"command": "resume"}', '{"cmd": "continue"}']))
    elif k == 2:
        c.request("debugger-info", {"command": rng.choice(["breakpoints", "status", "options", "design", "filename", "what"])})
    elif k == 3:
        b = rng.choice(list(s.T.bps.values()))
        c.request("bp-location", {"filename": b.file, "line_num": b.line})
    elif k == 4:
        c.request("evaluation", {"scope": "", "expression": rng.choice(["s0 +", "$time", "nothing", "1 / 0", s.occ[0] + ".s3 + 1", ""]), "is_context": False})
    elif k == 5:
        c.request("breakpoint", {"filename": "/no/such/file", "line_num": 3, "action": "add"})
    elif k == 6:
        c.request("breakpoint-id", {"id": 99999999, "action": "add"})
    elif k == 7:
        c.request("option-change", {rng.choice(["log_enabled", "use_signal_cache", "nothing"]): False})
    elif k == 8:
        c.request("set-value", {"var_name": "nothing", "value": 1})
    elif k == 9:
        c.request("monitor", {"action_type": "add", "monitor_type": "breakpoint", "var_name": "nothing", "namespace_id": 0})
    elif k == 10:
        c.request("symbol", {"x": 1})
    elif k == 11:
        c.ws._frame(9, b"ping")
    else:
        c.request("data-breakpoint", {"action": "add", "var_name": "x", "breakpoint-id": 99999999})


class Standing:
    """the simulation must not move"""

    def __init__(self, s, others):
        self.s, self.others = s, others
        # the report that is known reaches everybody
        for c in others:
            c.request("debugger-info", {"command": "status"})
            c.async_msgs.clear()
        self.p = s.host.progress()

    def check(self, what):
        p = self.s.host.progress()
        if (p["n"], p["cur"], p["t"], p["in_eval"]) != (self.p["n"], self.p["cur"], self.p["t"], self.p["in_eval"]):
            raise S.Bad("C05", f"{what}: the simulation moved from {self.p} to {p}")
        s = self.s
        # whatever is on its way has arrived once a request is answered
        for c in [s.c] + self.others:
            c.request("debugger-info", {"command": "status"})
            for m in c.async_msgs:
                if m.get("type") == "breakpoint":
                    raise S.Bad("C05", f"{what}: another breakpoint is reported: {m}")
            c.async_msgs.clear()


def interlude(s, rng, others, what, settle=True):
    """a while of standing still"""
    st = Standing(s, others)
    for _ in range(rng.randrange(0, 5)):
        k = rng.random()
        if k < 0.12 and len(others) < 4:
            others.append(s.host.client())
        elif k < 0.2 and others:
            c = others.pop(rng.randrange(len(others)))
            (c.ws.abort if rng.random() < 0.5 else c.close)()
        else:
            harmless(rng, rng.choice([s.c] + others), s)
        s.stat("harmless")
    if rng.random() < 0.3:
        time.sleep(rng.random() * 0.02)
    st.check(what)
    s.stat("stands")


def drain_others(others):
    for c in others:
        c.async_msgs.clear()


def blast(s, rng, n):
    """several continue commands at once; the order of answers and reports on the stream tells which of them resumed what.
    Returns when all are answered and the simulation stands still (True) or runs (False)."""
    s.mode = "continue"
    tokens = [s.c.send("command", {"command": "continue"}) for _ in range(n)]
    left = set(tokens)
    standing = True
    deadline = time.time() + s.host.timeout
    while left:
        m = s.c.async_msgs.pop(0) if s.c.async_msgs else s.c._next(0.5)
        if m == "closed":
            s.host.check_alive()
            raise S.Bad("C05", "the connection is closed")
        if m is None:
            s.host.check_alive()
            if time.time() > deadline:
                raise S.Hang("continue is not answered")
            continue
        if m.get("token") in left:
            left.discard(m["token"])
            if m["status"] != "success":
                raise S.Bad("C05", f"continue is answered with {m}")
            standing = False
        elif m.get("type") == "breakpoint":
            if standing:
                raise S.Bad("C05", f"a breakpoint is reported while the simulation should stand still: {m}")
            standing = True
            s.paused_at = None
            s.take(m)
        else:
            s.on_async(m)
    s.stat("blasted", n)
    return standing


def idle_commands(s, rng, others):
    """resuming commands while the simulation neither waits nor evaluates: they must not be saved up"""
    for _ in range(rng.randrange(0, 4)):
        c = rng.choice([s.c] + others)
        r = c.request("command", {"command": rng.choice(RESUME)})
        if r["status"] != "success":
            raise S.Bad("C05", f"a command between edges is answered with {r}")
        s.stat("idle_commands")
    # the mode is the last one sent
    s.command("continue")


def restart(s, rng):
    """a new client after everybody has gone"""
    c = s.host.client()
    s.c = c
    r = c.request("connection", {"db_filename": "unused"})
    if r["status"] != "success":
        raise S.Bad(("C05", "C26"), f"a new connection is refused: {r}")


def leave_all(s, rng, others):
    cs = others + [s.c]
    rng.shuffle(cs)
    for i, c in enumerate(cs):
        if i == len(cs) - 1:
            break
        (c.ws.abort if rng.random() < 0.4 else c.close)()
    s.c = last = cs[-1]
    others.clear()
    return last


def session(case, cfg):
    rng = random.Random(case)
    kind = rng.choice(["drive", "drive", "blast", "blast", "race", "leave", "leave", "stop", "posedge", "start"])
    T = D.flat_table(rng, n_insts=rng.randrange(1, 4), n_stmts=rng.randrange(1, 5), cond_p=0.3, ctx=rng.random() < 0.3)
    env = {}
    if rng.random() < 0.5:
        env = {"JITTER": str(rng.choice([20, 100, 300])), "JITTER_SEED": str(rng.randrange(1 << 30))}
    nb = kind == "start" and rng.random() < 0.3
    if nb:
        env["DEBUG_DISABLE_BLOCKING"] = "1"
    rewind = kind == "drive" and rng.random() < 0.3
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), rewind=rewind, env=env, rich=False)
    h = s.host
    others = []
    s.check_frames = False
    try:
        s.start()
        e2e.insert_everything(s, rng)
        # ---- start-up
        if nb:
            h.wait("started", 0, what="the simulation does not start although blocking is disabled")
        else:
            if rng.random() < 0.5:
                interlude(s, rng, others, "before the first command")
            if h.count("started"):
                raise S.Bad("C05", "the simulation starts without a command")
        edges = rng.randrange(3, 9)
        res = {"edges": edges, "kind": kind}
        if kind == "start":
            s.run(s.make_edges(edges, 0.1))
            if nb:
                # breakpoints stop it nevertheless
                while s.wait() is not None:
                    interlude(s, rng, others, "after a report")
                    s.c.request("command", {"command": "continue"})
            elif rng.random() < 0.5:
                opt = rng.random() < 0.5
                if not opt or rng.random() < 0.5:
                    s.c.request("option-change", {"detach_after_disconnect": not opt})
                last = leave_all(s, rng, others)
                time.sleep(0.01)
                if h.count("started"):
                    raise S.Bad("C05", "the simulation starts while a client is still connected")
                (last.ws.abort if rng.random() < 0.4 else last.close)()
                if opt:
                    time.sleep(0.05)
                    if h.count("started"):
                        raise S.Bad("C05", "the simulation starts although it was not to be left alone")
                    s.c = h.client()
                    interlude(s, rng, others, "nobody has given a command")
                    s.c.request("command", {"command": "continue"})
                h.wait("started", 0, what="the simulation still waits although " + ("a command was given" if opt else "every client has gone"))
                if opt:
                    while s.wait() is not None:
                        s.c.request("command", {"command": "continue"})
                h.wait("done", s.run_mark)
            else:
                s.command(rng.choice(RESUME))
                h.wait("started", 0, what="the first command does not start the simulation")
                k = 0
                while s.wait() is not None and k < 60:
                    interlude(s, rng, others, "after a report")
                    s.c.request("command", {"command": "continue"})
                    k += 1
                if k == 60:
                    h.kill()
                    return None
            h.finish()
            res["key"] = (kind, nb, T.order and len(T.order), edges)
            return {**res, "key": str(res["key"]), "stats": s.stats}

        if kind == "posedge":
            s.c.request("option-change", {"pause_at_posedge": True})
            s.run(s.make_edges(edges, 0.1))
            m0 = s.run_mark
            s.command("continue")
            k = 0
            while k < edges:
                i = h.wait_event(lambda e: e["e"] == "eb" and e["k"] == k, m0)
                if i is None:
                    raise S.Hang(f"edge {k} is not reached")
                time.sleep(0.002)
                p = h.progress()
                if p["cur"] != k or not p["in_eval"]:
                    raise S.Bad("C05", f"the simulation is at {p} instead of waiting at edge {k}")
                interlude(s, rng, others, f"waiting at edge {k}")
                s.command("continue")
                drain_others(others)
                # reports of this edge
                while True:
                    deadline = time.time() + h.timeout
                    m = None
                    while time.time() < deadline:
                        m = s.c.next_async(0.01)
                        if m is not None:
                            break
                        if h.wait_event(lambda e: e["e"] == "ee" and e["k"] == k, m0, 0.0001) is not None:
                            s.c.request("debugger-info", {"command": "status"})
                            m = s.c.async_msgs.pop(0) if s.c.async_msgs else None
                            break
                    else:
                        raise S.Hang(f"edge {k} neither ends nor reports")
                    if m is None:
                        break
                    s.take(m)
                    interlude(s, rng, others, "after a report")
                    s.command("continue")
                    drain_others(others)
                k += 1
                s.stat("posedges")
            h.wait("done", m0)
            s.over()
            h.finish()
            return {**res, "key": f"{kind}/{s.reports}/{edges}", "stats": s.stats, "reports": s.reports}

        s.run(s.make_edges(edges, 0.1))
        s.command("continue")
        n = 0
        limit = rng.randrange(1, 12)
        standing = False
        while True:
            if not standing:
                m = s.wait()
                if m is None:
                    s.over()
                    if n >= limit or len(s.plan) > 40:
                        break
                    # between edges
                    drain_others(others)
                    idle_commands(s, rng, others)
                    s.run(s.make_edges(edges, 0.1))
                    n += 1
                    continue
                s.take(m)
            n += 1
            drain_others(others)
            if rng.random() < 0.6:
                interlude(s, rng, others, "after a report")
            standing = False
            if kind == "blast" and rng.random() < 0.7:
                standing = blast(s, rng, rng.choice([2, 2, 3, 5, 8]))
                continue
            if kind == "race" and n > limit:
                return race(s, rng, others, res)
            if kind == "leave" and n > limit:
                return leave(s, rng, others, res)
            if kind == "stop" and n > limit:
                return stop(s, rng, others, res)
            cmd = "continue"
            if kind == "drive":
                cmd = rng.choice(["continue", "step_over", "step_over"] + (["step_back", "reverse"] if rewind and s.entries else []))
                if n > 150:
                    h.kill()
                    return None
            s.command(cmd)
        if kind in ("leave", "stop", "race"):
            # no report came: between edges
            return {"leave": leave, "stop": stop, "race": race}[kind](s, rng, others, res)
        h.finish()
        return {**res, "key": f"{kind}/{len(T.order)}/{s.reports}/{sorted(s.stats.items())}", "stats": s.stats, "reports": s.reports}
    finally:
        s.close()


def race(s, rng, others, res):
    """commands of several clients at once: each report needs a command answered since the one before, and a command answered
    after the last report resumes"""
    h = s.host
    while len(others) < 3:
        others.append(h.client())
    cs = [s.c] + others
    for c in cs:
        c.request("debugger-info", {"command": "status"})
        c.async_msgs.clear()
    idle = h.events[-1]["e"] == "done" or h.count("done", s.run_mark)
    if idle:
        h.run(s.make_edges(4, 0))
    first = {id(c): len(c.log) for c in cs}
    rounds = rng.randrange(3, 12)
    mine = set()
    for _ in range(rounds):
        toks = []
        for c in rng.sample(cs, rng.randrange(1, len(cs) + 1)):
            for _ in range(rng.randrange(1, 4)):
                toks.append((c, c.send("command", {"command": rng.choice(RESUME)})))
        mine.update(t for _, t in toks)
        for c, t in toks:
            r = c.response(t)
            if r["status"] != "success":
                raise S.Bad("C05", f"a command is answered with {r}")
        s.stat("raced", len(toks))
    # every client has seen every report, in the same order
    time.sleep(0.01)
    for _ in range(2):
        for c in cs:
            c.request("debugger-info", {"command": "status"})
    p = h.progress()
    seen = []
    resp = []
    for c in cs:
        hits, cnt = [], [0]
        for m in c.log[first[id(c)]:]:
            if m.get("type") == "breakpoint" and not m.get("request"):
                if "token" not in m or m.get("token") in (None, ""):
                    hits.append(m["payload"])
                    cnt.append(0)
            elif m.get("token") in mine:
                cnt[-1] += 1
        seen.append(hits)
        resp.append(cnt)
    n = min(len(x) for x in seen)
    for x in seen[1:]:
        if x[:n] != seen[0][:n]:
            raise S.Bad("C05", f"the clients see different reports: {seen}"[:600])
    for i in range(0 if idle else 0, n):
        if i == 0 and idle:
            continue
        if not any(r[i] for r in resp):
            raise S.Bad("C05", f"report {i} comes without a command since the one before; answers between reports: {resp}")
    # now alone: stand still, or run to the end
    while True:
        if h.count("done", s.run_mark):
            break
        p = h.progress()
        if not p["in_eval"]:
            time.sleep(0.005)
            continue
        time.sleep(0.005)
        for c in cs:
            c.request("debugger-info", {"command": "status"})
        p2 = h.progress()
        if p2["n"] != p["n"]:
            continue
        s.c.request("command", {"command": "continue"})
        i = h.wait_event(lambda e: False, len(h.events), 0.002)
    h.finish()
    return {**res, "key": f"race/{resp}", "stats": s.stats, "reports": n}


def leave(s, rng, others, res):
    """every client goes while the simulation stands, runs or rests"""
    h = s.host
    for rnd in range(rng.randrange(1, 4)):
        p = h.progress()
        paused = p["in_eval"]
        keep = rng.random() < 0.3
        s.c.request("option-change", {"detach_after_disconnect": not keep})
        if rng.random() < 0.3:
            others.append(h.client())
        st = Standing(s, others) if paused else None
        last = leave_all(s, rng, others)
        if st:
            st.check("one client is left")
        (last.ws.abort if rng.random() < 0.4 else last.close)()
        s.stat("left")
        if paused and keep:
            time.sleep(0.03)
            q = h.progress()
            if q["n"] != p["n"]:
                raise S.Bad("C05", f"the simulation went on from {p} to {q} although it was not to be left alone")
            s.c = h.client()
            interlude(s, rng, others, "nobody has given a command")
            s.c.request("command", {"command": "continue"})
            while s.wait() is not None:
                s.c.request("command", {"command": "continue"})
            h.wait("done", s.run_mark, what="the simulation still waits although a command was given")
        elif keep:
            s.c = h.client()
        else:
            h.wait("done", s.run_mark, what="the simulation still waits although every client has gone")
            # left alone, it runs without stopping
            m = h.run(s.make_edges(3, 0.1))
            h.wait("done", m, what="the simulation stops although nobody is connected")
            s.c = h.client()
            r = s.c.request("connection", {"db_filename": "unused"})
            if r["status"] != "success":
                raise S.Bad("C05", f"a new connection is refused: {r}")
        # stops again
        r = s.c.request("command", {"command": "continue"})
        s.run_mark = h.run(s.make_edges(3, 0))
        held = any(not e.bp.cond and not e.user for e in s.entries)
        m = s.wait()
        if m is None and held:
            raise S.Bad(("C05", "C26"), "the simulation does not stop at an inserted breakpoint after clients left and came back")
        if m is not None:
            s.stat("back")
            interlude(s, rng, others, "after a report to a new client")
    if h.progress()["in_eval"]:
        if rng.random() < 0.5:
            while True:
                s.c.request("command", {"command": "continue"})
                if s.wait() is None:
                    break
        else:
            s.c.request("option-change", {"detach_after_disconnect": True})
            last = leave_all(s, rng, others)
            (last.ws.abort if rng.random() < 0.4 else last.close)()
            h.wait("done", s.run_mark, what="the simulation still waits although every client has gone")
    h.finish()
    return {**res, "key": f"leave/{sorted(s.stats.items())}", "stats": s.stats, "reports": s.reports}


def stop(s, rng, others, res):
    """the stop command ends the simulation and never leaves it waiting"""
    h = s.host
    if not h.progress()["in_eval"]:
        h.run(s.make_edges(4, 0))
        if rng.random() < 0.5:
            time.sleep(0.01)
    c = rng.choice([s.c] + others)
    c.send("command", {"command": "stop"})
    h.wait("done", s.run_mark, what="the simulation still waits after the stop command")
    h.finish()
    # the clients are let go
    for x in [s.c] + others:
        if not x.ws.closed.wait(5):
            raise S.Bad(("C05", "C11"), "a connection stays open after the stop command and the end of the simulation")
    return {**res, "key": f"stop/{s.reports}/{len(others)}/{sorted(s.stats.items())}", "stats": s.stats, "reports": s.reports}


def run(ctx):
    return e2e.run_sessions(ctx, session, 220, 3000,
                            "sessions with one to five clients that join, leave, vanish, send harmless and malformed requests while the simulation must "
                            "stand still (its progress counter is compared), several resuming commands at once, commands between edges, all clients leaving, "
                            "stop, pausing at every edge, start-up with and without blocking; half of them with random delays around every lock")
