"""C31: the Python client library: a call is one request, its result is the answer to it, nothing the debugger sends gets lost"""
import json, random, threading, time
import design as D
import scen as S
import e2e
import pyclient
from peer import Peer
from ctx import *

TEXT = ["a", "/tmp/a.py", "top.dut.x", "a && b", "ü€😀", "", " ", "\"q\" \\", "x" * 500, "0", "a\nb", "$time", "'", "null"]


def norm(r):
    """a request as the debugger understands it: what may be left out counts as its default"""
    t, p = r.get("type"), dict(r.get("payload") or {})
    if t == "breakpoint":
        p.setdefault("column_num", 0)
    if t in ("breakpoint", "breakpoint-id", "data-breakpoint") and p.get("condition") == "":
        del p["condition"]
    if t == "data-breakpoint":
        p.setdefault("namespace_id", None)
        if p["namespace_id"] is None:
            del p["namespace_id"]
    if t == "connection" and p.get("path-mapping") in ({}, None):
        p.pop("path-mapping", None)
    return {"request": r.get("request"), "type": t, "payload": p}


class Scripted:
    """a debugger that answers by the book but says other things in between"""

    def __init__(self, rng):
        self.rng = rng
        self.sent = []             # what is not an answer, in order
        self.requests = []
        self.silent = False
        self.fail = False
        self.extra = [0, 0]
        self.n = 0
        self.answered = []
        self.peer = Peer("ws", self.answer)

    def other(self):
        rng = self.rng
        self.n += 1
        k = rng.random()
        if k < 0.6:
            m = {"request": False, "type": "breakpoint", "status": "success", "payload": {"time": self.n, "filename": rng.choice(TEXT), "line_num": rng.randrange(99), "instances": [{"instance_id": 1, "local": {"a": "1" * rng.choice([1, 1, 70000])}, "generator": {}}]}}
        elif k < 0.9:
            m = {"request": False, "type": "monitor", "status": "success", "payload": {"track_id": rng.randrange(4), "namespace_id": 0, "value": str(self.n)}}
        else:
            m = {"request": False, "type": "generic", "status": rng.choice(["success", "error"]), "payload": {"n": self.n, "reason": "other"}}
            if rng.random() < 0.5:
                m["token"] = f"somebody-{self.n}"
        self.sent.append(m)
        return ("send", json.dumps(m), rng.choice([1, 1, 1, 3]))

    def answer(self, r, text):
        rng = self.rng
        self.requests.append(r)
        steps = [self.other() for _ in range(self.extra[0])]
        if rng.random() < 0.2:
            steps.insert(rng.randrange(len(steps) + 1), ("sleep", rng.choice([0.001, 0.01])))
        if not self.silent:
            self.n += 1
            a = {"request": False, "type": "generic", "status": "error" if self.fail else "success",
                 "payload": {"reason": f"refused {self.n} " + rng.choice(TEXT)} if self.fail else
                 {"track_id": self.n, "namespace_id": rng.randrange(5), "n": self.n, "breakpoints": [{"id": i, "type": rng.choice([1, 1, 2, 3])} for i in range(rng.randrange(4))],
                  "filenames": [rng.choice(TEXT)], "design": {"top": {"tb.top": 0}}, "result": str(self.n), "time": self.n}}
            if isinstance(r, dict) and r.get("type") == "bp-location" and not self.fail:
                a["payload"] = [{"id": self.n}]
            if isinstance(r, dict) and r.get("token"):
                a["token"] = r["token"]
            self.answered.append(a)
            steps.append(("send", json.dumps(a), rng.choice([1, 1, 1, 2])))
        return steps + [self.other() for _ in range(self.extra[1])]


def scripted(rng, case):
    mod = pyclient.load()
    P = Scripted(rng)
    loop = pyclient.Loop()
    stats = {"calls": 0, "others": 0, "refusals": 0, "hits": 0, "timeouts": 0}
    got = 0                        # how many of P.sent were handed out
    open_ = []                     # those still to be handed out
    trace = []

    def bad(what, got=None, want=None):
        raise Violation(f"{what}: {got!r} instead of {want!r}"[:600] if want is not None else what[:600], {"case": case, "calls": trace[-12:]})

    def call(coro, timeout=20):
        return loop.call(coro, timeout)

    def catch_up():
        nonlocal got
        open_.extend(P.sent[got:])
        got = len(P.sent)
    try:
        fn = rng.choice([None, None, "/x/table.json", "ü.db"])
        mapping = rng.choice([None, {"/a": "/b"}, {"/a/": "/b", "c": ""}])
        c = mod.HGDBClient(P.peer.uri, fn, *([mapping] if mapping or rng.random() < 0.5 else []), debug=rng.random() < 0.5)

        def one(name, want, coro, kind="dict", strict=False, timeout=None):
            """kind: what comes back for an answer"""
            P.fail = rng.random() < 0.25
            P.extra = [rng.choice([0, 0, 1, 2, 5]), rng.choice([0, 0, 0, 1, 3])]
            P.silent = timeout is not None and rng.random() < 0.5
            n, m = len(P.requests), len(P.answered)
            trace.append([name, want, P.fail, list(P.extra), P.silent])
            stats["calls"] += 1
            raised = res = None
            try:
                res = call(coro())
            except mod.HGDBClientException as e:
                raised = e
            except (Violation, Hang):
                raise
            except Exception as e:
                bad(f"{name} ends with {type(e).__name__}: {e}")
            if want is None:
                if P.requests[n:]:
                    bad(f"{name} sends a request though there is nothing to ask", P.requests[n:], [])
                catch_up()
                return
            reqs = P.requests[n:]
            if len(reqs) != 1 or not isinstance(reqs[0], dict):
                bad(f"{name} sends {len(reqs)} requests", reqs, [want])
            r = reqs[0]
            if norm(r) != norm(want):
                bad(f"{name} requests", norm(r), norm(want))
            if want.get("token") and r.get("token") != want["token"]:
                bad(f"{name} was given the token", r.get("token"), want["token"])
            if P.silent:
                stats["timeouts"] += 1
                if raised or res is not None:
                    bad(f"{name} without an answer gives", res or raised, "nothing")
                catch_up()
                return
            # what is behind the answer is sent once the call is over, too
            t = time.time() + 5
            while (len(P.answered) == m or (P.extra[1] and len(P.sent) < got + sum(P.extra))) and time.time() < t:
                time.sleep(0.001)
            a = P.answered[m]
            catch_up()
            if P.fail:
                stats["refusals"] += 1
                if strict:
                    if raised is None:
                        bad(f"{name} is refused and returns {res!r} instead of raising it")
                    if a["payload"]["reason"] not in str(raised):
                        bad(f"{name} raises", str(raised), a["payload"]["reason"])
                    return
            if raised is not None:
                bad(f"{name} raises {raised!r} though " + ("told not to" if P.fail else "its request is granted"))
            if kind == "dict" and res != a:
                bad(f"{name} returns", res, a)
            elif kind == "ok" and res != (not P.fail):
                bad(f"{name} returns", res, not P.fail)
            elif callable(kind) and res != kind(a):
                bad(f"{name} returns", res, kind(a))

        def req(type, payload, token=None):
            r = {"request": True, "type": type, "payload": payload}
            if token:
                r["token"] = token
            return r
        first = None
        if fn:
            p = {"db_filename": fn}
            if mapping is not None:
                p["path-mapping"] = mapping
            first = req("connection", p)
        one("connect", first, c.connect, strict=True)

        def tok():
            return rng.choice(["", "", f"own-{len(trace)}", "same"])

        def checked(k):
            if rng.random() < 0.5:
                return True
            k["check_error"] = v = rng.random() < 0.5
            return v
        for _ in range(rng.randrange(4, 40)):
            k = rng.randrange(24)
            f, line, col, cond, t = rng.choice(TEXT), rng.randrange(1, 2000), rng.choice([0, 0, 3]), rng.choice(["", "a == 1", rng.choice(TEXT)]), tok()
            kw = {}
            if t or rng.random() < 0.3:
                kw["token"] = t
            if k == 0:
                s_ = checked(kw)
                a = [f, line] + ([col] if col or rng.random() < 0.3 else [])
                p = {"filename": f, "line_num": line, "column_num": col, "action": "add"}
                if cond:
                    p["condition"] = kw["cond"] = cond
                one("set_breakpoint", req("breakpoint", p, t), lambda: c.set_breakpoint(*a, **kw), strict=s_)
            elif k == 1:
                s_ = checked(kw)
                p = {"var_name": f, "breakpoint-id": line, "action": "add"}
                if cond:
                    p["condition"] = kw["cond"] = cond
                one("set_data_breakpoint", req("data-breakpoint", p, t), lambda: c.set_data_breakpoint(line, f, **kw), strict=s_)
            elif k == 2:
                p = {"var_name": f, "breakpoint-id": line, "action": "info"}
                if cond:
                    p["condition"] = kw["cond"] = cond
                one("valid_data_breakpoint", req("data-breakpoint", p, t), lambda: c.valid_data_breakpoint(line, f, **kw), kind="ok")
            elif k == 3:
                s_ = checked(kw)
                p = {"id": line, "action": "add"}
                if cond:
                    p["condition"] = kw["cond"] = cond
                one("set_breakpoint_id", req("breakpoint-id", p, t), lambda: c.set_breakpoint_id(line, **kw), strict=s_)
            elif k == 4:
                a = [f, line] + ([col] if col or rng.random() < 0.3 else [])
                one("remove_breakpoint", req("breakpoint", {"filename": f, "line_num": line, "column_num": col, "action": "remove"}, t), lambda: c.remove_breakpoint(*a, **kw))
            elif k == 5:
                s_ = checked(kw)
                one("remove_breakpoint_id", req("breakpoint-id", {"id": line, "action": "remove"}, t), lambda: c.remove_breakpoint_id(line, **kw), strict=s_)
            elif k == 6:
                s_ = checked(kw)
                one("remove_data_breakpoint", req("data-breakpoint", {"breakpoint-id": line, "action": "remove"}, t), lambda: c.remove_data_breakpoint(line, **kw), strict=s_)
            elif k == 7:
                p, a = {"filename": f}, [f]
                if rng.random() < 0.7:
                    p["line_num"] = line
                    a.append(line)
                    if rng.random() < 0.5:
                        p["column_num"] = col
                        a.append(col)
                one("request_breakpoint_location", req("bp-location", p), lambda: c.request_breakpoint_location(*a))
            elif k in (8, 9, 10):
                n, cmd = rng.choice([("continue_", "continue"), ("stop", "stop"), ("step_over", "step_over"), ("step_back", "step_back"), ("reverse_continue", "reverse_continue"), ("jump", "jump")])
                to = rng.choice([None, None, 0.3]) if rng.random() < 0.3 else None
                p, a = {"command": cmd}, []
                if cmd == "jump":
                    p["time"] = line
                    a = [line]
                # what those give back is not documented except for a jump
                one(n, req("command", p), lambda: getattr(c, n)(*a, **({"timeout": to} if to else {})), kind="dict" if cmd == "jump" else None, timeout=to)
            elif k == 11:
                s_ = checked(kw)
                kw.pop("token", None)
                cmd = rng.choice(["breakpoints", "options", "status", "filename", "design"])
                one("get_info", req("debugger-info", {"command": cmd}), lambda: c.get_info(*([cmd] if cmd != "breakpoints" or rng.random() < 0.5 else []), **kw), strict=s_)
            elif k == 12:
                one("get_current_normal_breakpoints", req("debugger-info", {"command": "breakpoints"}), c.get_current_normal_breakpoints, strict=True,
                    kind=lambda a: [b for b in a["payload"]["breakpoints"] if b["type"] & 1])
            elif k == 13:
                one("get_current_data_breakpoints", req("debugger-info", {"command": "breakpoints"}), c.get_current_data_breakpoints, strict=True,
                    kind=lambda a: [b for b in a["payload"]["breakpoints"] if b["type"] & 2])
            elif k == 14:
                one("get_filenames", req("debugger-info", {"command": "filename"}), c.get_filenames, strict=True, kind=lambda a: a["payload"]["filenames"])
            elif k == 15:
                one("get_design", req("debugger-info", {"command": "design"}), c.get_design, strict=True, kind=lambda a: a["payload"]["design"])
            elif k in (16, 17):
                kw.pop("token", None)
                p = {"expression": f}
                for n in ("namespace_id", "breakpoint_id", "instance_id"):
                    if rng.random() < 0.4:
                        p[n] = kw[n] = rng.choice([0, 0, 1, 7])
                s_ = checked(kw)
                one("evaluate", req("evaluation", p), lambda: c.evaluate(f, **kw), strict=s_)
            elif k == 18:
                kw.pop("token", None)
                p = {n: rng.random() < 0.5 for n in rng.sample(["single_thread_mode", "log_enabled", "use_hex_str", "x"], rng.randrange(0, 4))}
                s_ = checked(kw)
                one("change_option", req("option-change", p), lambda: c.change_option(**p, **kw), strict=s_)
            elif k in (19, 20):
                p = {"action_type": "add", "monitor_type": "breakpoint", "var_name": f}
                kw = {}
                if rng.random() < 0.6:
                    p["monitor_type"] = kw["monitor_type"] = rng.choice(["breakpoint", "clock_edge"])
                if rng.random() < 0.5:
                    p["instance_id"] = kw["instance_id"] = rng.choice([0, 3])
                if rng.random() < 0.4:
                    p["breakpoint_id"] = kw["breakpoint_id"] = rng.choice([0, 5])
                one("add_monitor", req("monitor", p), lambda: c.add_monitor(f, **kw), strict=True, kind=lambda a: (a["payload"]["track_id"], a["payload"]["namespace_id"]))
            elif k == 21:
                ns = rng.choice([0, 0, 2])
                one("remove_monitor", req("monitor", {"action_type": "remove", "track_id": line, "namespace_id": ns}),
                    lambda: c.remove_monitor(line, *([ns] if ns or rng.random() < 0.5 else [])), strict=True, kind=None)
            elif k == 22:
                v = rng.choice([0, 1, -5, 1 << 40])
                kw = {}
                p = {"var_name": f, "value": v}
                for n in ("namespace_id", "breakpoint_id", "instance_id"):
                    if rng.random() < 0.4:
                        p[n] = kw[n] = rng.choice([0, 0, 1, 7])
                s_ = False
                if rng.random() < 0.5:
                    kw["check_error"] = s_ = rng.random() < 0.5
                one("set_value", req("set-value", p), lambda: c.set_value(f, v, **kw), strict=s_)
            else:
                mp = rng.choice([{}, {"/x": "/y"}, {"ü": "b", "/c/": "/d/"}])
                one("set_src_mapping", req("path-mapping", {"path-mapping": mp}), lambda: c.set_src_mapping(mp), strict=True, kind=None)
            # some of what was said in between is asked for now
            while rng.random() < 0.4 and open_:
                take(c, call, rng, open_, stats, bad)
        # in the end everything that was said has been handed out
        while open_:
            take(c, call, rng, open_, stats, bad)
        if rng.random() < 0.3:
            f = rng.choice([c.recv, c.recv_bp])
            r = call(f(timeout=0.05))
            if r is not None:
                bad("everything was handed out, and there is still", r, None)
        n = len(P.peer.requests)
        call(c.close())
        if P.peer.errors:
            raise HarnessError(str(P.peer.errors))
        toks = [r.get("token") for r in P.requests]
        if not all(isinstance(t, str) and t for t in toks):
            bad("a request is sent without a token", toks)
        mine = [t for t in toks if not t.startswith("own-") and t != "same"]
        if len(set(mine)) != len(mine):
            bad("requests carry the same token", mine)
        stats["others"] = len(P.sent)
        return {"stats": stats, "key": f"s/{len(trace)}/{len(P.sent)}/{stats['refusals']}/{stats['timeouts']}", "edges": 0, "reports": 0}
    finally:
        loop.stop()
        P.peer.close()


def take(c, call, rng, open_, stats, bad):
    hits = [m for m in open_ if m["type"] == "breakpoint"]
    if hits and rng.random() < 0.6:
        r = call(c.recv_bp(**({"timeout": 2} if rng.random() < 0.3 else {})))
        if r != hits[0]:
            bad("recv_bp returns", short(r), short(hits[0]))
        open_[:] = [m for m in open_ if m is not hits[0]]
        stats["hits"] += 1
    else:
        r = call(c.recv(**({"timeout": 2} if rng.random() < 0.3 else {})))
        if r != open_[0]:
            bad("recv returns", short(r), short(open_[0]))
        open_.pop(0)


def short(m):
    return json.dumps(m)[:200]


def session(case, cfg):
    rng = random.Random(case)
    if rng.random() < 0.8:
        return scripted(rng, case)
    kind = rng.choice(["flat", "json", "data"])
    T = e2e.json_table(rng, cfg) if kind == "json" else D.flat_table(rng, data=kind == "data", delays=0, rich=kind == "flat")
    if not T.order:
        return None
    pyclient.PyHost.mod = pyclient.load()
    back = rng.random() < 0.3
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), rich=kind == "flat", rewind=back, host_cls=pyclient.PyHost)
    try:
        s.start()
        opts = s.options_check(None)
        s.use_hex = opts["use_hex_str"]
        for _ in range(rng.randrange(1, 5)):
            e2e.random_insert(s, rng)
            if kind == "data":
                e2e.random_data(s, rng)
        if rng.random() < 0.3:
            e2e.insert_everything(s, rng)

        def stop(n):
            k = rng.random()
            if k < 0.3:
                e2e.random_edit(s, rng)
            elif k < 0.5:
                e2e.random_write(s, rng, avoid_triggers=True)
            elif k < 0.7:
                e2e.random_eval(s, rng)
            if n > 100:
                for e in list(s.entries):
                    s.req_remove_id(e.bp.id)

        def cmd(n):
            if not back or n > 40:
                return "continue"
            return rng.choices(["continue", "step_over"], [3, 1])[0]
        edges = rng.randrange(4, 10)
        e2e.drive(s, rng, edges, stop, cmd)
        s.host.finish()
        st = dict(s.stats)
        for n, v in s.c.calls.items():
            st["real_" + n] = v
        return {"reports": s.reports, "stats": st, "edges": edges, "key": f"e/{kind}/{len(T.order)}/{s.reports}"}
    except S.Bad as e:
        # the same sessions pass with a client of our own (C02 to C08)
        e.props = tuple(e.props) + ("C31",)
        raise
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 400, 8000,
                            "a scripted debugger records every request of the library and says other things before and after its answers; debugging sessions "
                            "judged by the reference debugger go through the library; nontrivial = sequences that differ in calls, messages in between, refusals and time-outs",
                            min_eval=50, min_nontrivial=10)
