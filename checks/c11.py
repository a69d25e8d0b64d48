"""C11: whatever a client sends is answered once and does no harm"""
import json, os, random, time
import design as D
import hostile
import scen as S
import e2e
from ctx import *
from host import Violation

STATUS = ("success", "error")


class Line:
    """one client: what it sent and must be answered, in order"""

    def __init__(self, s, c):
        self.s, self.c = s, c
        self.open = []         # (description, token or None, expected status or None)

    def send(self, text, what, token=None, want=None, **kw):
        try:
            self.c.ws.send(text, **kw)
        except OSError:
            self.s.host.check_alive()
            raise S.Bad("C11", f"the connection is closed before {what[:200]}")
        self.open.append((what, token, want))

    def request(self, t, p, token, want=None, rng=None):
        d = {"request": True, "type": t, "payload": p}
        if token is not None:
            d["token"] = token
        if rng is not None and rng.random() < 0.3:
            k = list(d)
            rng.shuffle(k)
            d = {x: d[x] for x in k}
        if rng is not None and rng.random() < 0.1:
            d["extra"] = [1, {"x": None}]
        kw = {}
        if rng is not None:
            kw = {"binary": rng.random() < 0.05, "fragments": rng.choice([1, 1, 1, 1, 2, 5])}
        text = json.dumps(d, ensure_ascii=rng is None or rng.random() < 0.7)
        self.send(text, text, token, want, **kw)

    def collect(self):
        """everything sent must be answered now"""
        h = self.s.host
        deadline = time.time() + h.timeout
        for what, token, want in self.open:
            while True:
                m = self.c.async_msgs.pop(0) if self.c.async_msgs else self.c._next(max(0.01, deadline - time.time()))
                if m == "closed":
                    time.sleep(0.05)
                    h.check_alive()
                    raise S.Bad("C11", f"the connection is closed instead of an answer to {what[:300]}")
                if m is None:
                    h.check_alive()
                    raise S.Hang(f"no answer to {what[:300]}")
                if m.get("type") in ("breakpoint", "monitor") and m.get("request") is False:
                    continue
                break
            if m.get("request") is not False or m.get("status") not in STATUS or "type" not in m or "payload" not in m:
                raise S.Bad("C11", f"{what[:300]} is answered with {str(m)[:300]}")
            if token and m.get("token") != token:
                raise S.Bad("C11", f"the answer {str(m)[:300]} lacks the token of {what[:300]}")
            if not token and m.get("token"):
                raise S.Bad("C11", f"the answer {str(m)[:300]} has a token that {what[:300]} did not have")
            if want and m["status"] != want:
                raise S.Bad("C11", f"{what[:300]} is answered with {str(m)[:300]}")
            if m["status"] == "error" and not (isinstance(m["payload"], dict) and isinstance(m["payload"].get("reason"), str) and m["payload"]["reason"]):
                raise S.Bad("C11", f"the error {str(m)[:300]} to {what[:300]} has no reason")
            self.s.stat("answered_" + m["status"])
        self.open.clear()

    def quiet(self):
        """nothing arrives that was not asked for"""
        tok = f"q{random.randrange(1 << 40)}"
        self.request("debugger-info", {"command": "status"}, tok)
        h = self.s.host
        while True:
            m = self.c.async_msgs.pop(0) if self.c.async_msgs else self.c._next(h.timeout)
            if m == "closed" or m is None:
                h.check_alive()
                raise S.Bad("C11", "a client that did nothing wrong is not answered any more")
            if m.get("token") == tok:
                self.open.clear()
                return
            if m.get("type") in ("breakpoint", "monitor") and m.get("request") is False:
                continue
            raise S.Bad("C11", f"a message nobody asked for: {str(m)[:400]}")


def snapshot(l):
    c = l.c
    a = c.request("debugger-info", {"command": "breakpoints"})
    b = c.request("debugger-info", {"command": "options"})
    d = c.request("debugger-info", {"command": "design"})
    return [(x["status"], x["payload"]) for x in (a, b, d)]


def stomp(s, rng, lines, G, n):
    """n messages over all the clients"""
    for i in range(n):
        l = rng.choice(lines)
        k = rng.random()
        if k < 0.35:
            t, p = G.valid()
            l.request(t, p, G.token() if rng.random() < 0.85 else None, rng=rng)
        elif k < 0.7:
            t, p = G.invalid()
            before = snapshot(l) if rng.random() < 0.05 and not l.open else None
            l.request(t, p, G.token() if rng.random() < 0.85 else None, "error", rng=rng)
            if before:
                what = l.open[0][0]
                l.collect()
                after = snapshot(l)
                if after != before:
                    raise S.Bad("C11", f"the refused request {what[:300]} changes the state from {before} to {after}"[:1500])
                s.stat("refused_unchanged")
        elif k < 0.9:
            text = G.text()
            l.send(text, text, None, "error", binary=rng.random() < 0.1, fragments=rng.choice([1, 1, 1, 3]))
        elif k < 0.93:
            # fine otherwise, but the token is none
            t, p = G.valid(rng.choice(["debugger-info", "bp-location", "option-change"]))
            text = json.dumps({"request": True, "type": t, "payload": p, "token": rng.choice([1, None, True, [], {}, ["x"], 1.5])})
            l.send(text, text, None, None)
        elif k < 0.95:
            b = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60)))
            l.send(b, repr(b), None, "error", binary=True)
        elif k < 0.97:
            # bytes that are no UTF-8, inside an otherwise valid request
            b = b'{"request": true, "type": "' + bytes([rng.choice([0x80, 0xc0, 0xff, 0xed])]) + b'", "payload": {}}'
            l.send(b, repr(b), None, "error", binary=True)
        elif k < 0.98:
            text = '{"request": true, "type": "debugger-info", "payload": {"command": "x\\u%s"}}' % rng.choice(["d800", "dc00", "dfff", "d800\\u0041"])
            l.send(text, text, None, "error")
        else:
            bad_frames(s, rng)
        s.stat("messages")
        if rng.random() < 0.3:
            l.collect()
    for l in lines:
        l.collect()
    for l in lines:
        l.quiet()


def bad_frames(s, rng):
    """a client that breaks the protocol may be thrown out; nobody else notices"""
    c = s.host.client()
    w = c.ws
    k = rng.randrange(8)
    try:
        if k == 0:
            w._frame(1, b"\xff\xfe")
        elif k == 1:
            w.raw(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 200))))
        elif k == 2:
            w._frame(rng.choice([3, 5, 11, 15]), b"x")
        elif k == 3:
            w.raw(b"\x81\x05hello")        # not masked
        elif k == 4:
            w.raw(b"\x81\xff" + b"\xff" * 8 + b"abcd")
        elif k == 5:
            w._frame(0, b"continuation of nothing")
        elif k == 6:
            w.raw(b"\x01\x85abcd" + b"x" * 3)   # cut short
            w.abort()
        else:
            w._frame(8, b"\x00")
        time.sleep(0.005)
    except OSError:
        pass
    (c.close if rng.random() < 0.5 else w.abort)()
    s.stat("bad_frames")


def session(case, cfg):
    rng = random.Random(case)
    flat = rng.random() < 0.5
    T = D.flat_table(rng, n_insts=rng.randrange(1, 5), data=True, rich=rng.random() < 0.3, cond_p=0.3, delays=0.2, triggers=0.1) if flat else e2e.json_table(rng, cfg)
    flat = bool(T.flat)
    env = {}
    if rng.random() < 0.3:
        env = {"JITTER": str(rng.choice([20, 100])), "JITTER_SEED": str(rng.randrange(1 << 30))}
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), env=env)
    h = s.host
    try:
        good = os.path.join(h.dir, "table.json")
        if not flat:
            with open(good, "w") as f:
                json.dump(T.json, f)
            with open(os.path.join(h.dir, "bad.json"), "w") as f:
                f.write(json.dumps(T.json)[:-20])
            with open(os.path.join(h.dir, "other.json"), "w") as f:
                f.write(rng.choice(["{}", "[]", "null", '{"generator": 1}', '{"generator": "x", "table": []}', "\x00"]))
        conns = ["", "/no/such", ".", good] if flat else ["", "/no/such", h.dir, os.path.join(h.dir, "bad.json"), os.path.join(h.dir, "other.json"), good, good,
                                                          "ws://", "tcp://", "tcp://127.0.0.1", "ws://127.0.0.1:x",
                                                          "tcp://127.0.0.1:1", "ws://127.0.0.1:1", "tcp://127.0.0.1:99999"]
        cmds = ["continue", "continue", "step_over", "step_back", "reverse_continue", "jump"]
        lines = [Line(s, h.client()) for _ in range(rng.choice([1, 1, 2, 3]))]
        # ---- before anything is known
        G0 = hostile.Gen(rng, T, commands=["nothing"], connections=conns[:-1])
        if rng.random() < 0.7:
            if flat:
                G0.connections = ()
            stomp(s, rng, lines, G0, rng.randrange(2, 25))
            s.stat("before_connection")
        if h.count("started"):
            raise S.Bad(("C11", "C05"), "the simulation starts without a command")
        # ---- connected, not started
        c = lines[0].c
        r = c.request("connection", {"db_filename": good})
        if r["status"] != "success":
            raise S.Bad("C11", f"a valid symbol table is refused: {r}")
        G = hostile.Gen(rng, T, ns=range(len(s.occ)), commands=cmds)
        G1 = hostile.Gen(rng, T, ns=range(len(s.occ)), commands=["nothing"])
        stomp(s, rng, lines, G1, rng.randrange(2, 25))
        # ---- running, paused, idle: whatever comes
        phases = rng.randrange(1, 4)
        for ph in range(phases):
            e = s.make_edges(rng.randrange(2, 8))
            s.run_mark = h.run(e)
            if rng.random() < 0.4:
                # every line, so that it stops
                b = G.bp()
                lines[0].request("breakpoint-id", {"id": b.id, "action": "add"}, "x1")
                lines[0].collect()
            lines[0].request("command", {"command": "continue"}, "x2", "success")
            lines[0].collect()
            if rng.random() < 0.3:
                h.ask("delay", us=rng.choice([0, 50, 300]))
            Gx = hostile.Gen(rng, T, ns=range(len(s.occ)), commands=cmds, connections=conns if rng.random() < 0.4 else ())
            stomp(s, rng, lines, Gx if rng.random() < 0.8 else G1, rng.randrange(3, 40))
            if len(lines) > 1 and rng.random() < 0.4:
                l = lines.pop()
                (l.c.close if rng.random() < 0.5 else l.c.ws.abort)()
                lines[0].quiet()
                lines.append(Line(s, h.client()))
            h.ask("delay", us=0)
            # to the end of the edges
            l = lines[0]
            deadline = time.time() + 30
            while h.wait_event(lambda e: e["e"] == "done", s.run_mark, 0.005) is None:
                l.request("connection", {"db_filename": good}, "x3")
                l.request("command", {"command": "continue"}, "x4", "success")
                l.collect()
                if time.time() > deadline:
                    raise S.Hang(f"the simulation cannot be made to run: {h.progress()}")
        # ---- and still it works
        s.c = c = lines[0].c
        e2e.resync(s, good)
        e2e.insert_everything(s, rng)
        n = e2e.drive(s, rng, rng.randrange(2, 6))
        if rng.random() < 0.3:
            lines[-1].c.send("command", {"command": "stop"})
            time.sleep(0.01)
        h.finish()
        return {"key": f"{flat}/{len(lines)}/{phases}/{sorted(s.stats.items())}", "stats": s.stats, "reports": s.reports, "edges": len(s.plan)}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 480, 4000,
                            "sessions of one to three clients sending valid, wrong and meaningless messages before, between and during everything else; every "
                            "message must be answered once, in order, to its sender, with its token; refused requests leave the state as it was; afterwards a "
                            "model-checked session must still work")
