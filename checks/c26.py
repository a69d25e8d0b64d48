"""C26: attached to the clock exactly while it should be"""
import json, os, random, time
import design as D
import scen as S
import e2e
from ctx import *

VALUE, NEXT = 1, 8           # cbValueChange, cbNextSimTime (vpi_user.h)


class World:
    """what the debugger is attached to, and what happens at an edge"""

    def __init__(self, s, rng, verilator, tables):
        self.s, self.rng, self.h = s, rng, s.host
        self.verilator = verilator
        self.tables = tables          # name -> (path, clocks)
        self.clocks = {None} if verilator else set()
        self.loaded = True            # is there a symbol table
        self.rst = 0
        self.cs = []
        self.keys = []

    def st(self, k, n=1):
        self.s.stat(k, n)

    # ---- callbacks
    def check_cbs(self, what, at_most=False):
        got = sorted((r, o) for r, o in self.h.ask("cbs")["cbs"] if r in (VALUE, NEXT))
        want = sorted(((NEXT, None) if c is None else (VALUE, c)) for c in self.clocks)
        bad = any(got.count(x) > 1 for x in got) or not set(got) <= set(want) if at_most else got != want
        if bad:
            raise S.Bad("C26", f"{what}: the callbacks with the simulator are {got} instead of {want}")
        self.st("callback_checks")

    # ---- requests
    def connect(self, name=None, c=None):
        """a connection request; name of the table"""
        c = c or self.cs[-1]
        name = name or self.rng.choice(list(self.tables))
        path, clocks = self.tables[name]
        r = c.request("connection", {"db_filename": path})
        if clocks is None:
            if r["status"] != "error":
                raise S.Bad("C11", f"a file that cannot be read is accepted: {r}")
            self.loaded = False
            self.check_cbs(f"after a refused table", True)
            # what is left is not said
            got = {o for r, o in self.h.ask("cbs")["cbs"] if r in (VALUE, NEXT)}
            self.clocks &= got
        else:
            if r["status"] != "success":
                raise S.Bad("C26", f"a connection to table {name} is refused: {r}")
            self.loaded = True
            self.clocks = set(clocks)
            self.check_cbs(f"after a connection with table {name}")
        self.st("connections")

    def watch(self):
        """a monitor that tells every evaluation"""
        s = self.s
        n = next(n for n in s.writable if n.startswith(s.ns[0] + "."))
        c = self.cs[-1]
        p = {"action_type": "add", "monitor_type": "clock_edge", "var_name": s.T.top + n[len(s.ns[0]):], "namespace_id": 0}
        r = c.request("monitor", p)
        if r["status"] != "success":
            raise S.Bad("C26", f"a monitor is refused after a connection: {r}")
        self.track = r["payload"]["track_id"]
        return c

    def edges(self, n):
        """edges to drive, and the evaluations expected for each"""
        es, want = [], []
        for _ in range(n):
            e = {}
            for x in self.s.writable:
                if self.rng.random() < 0.1:
                    e[x] = self.rng.getrandbits(min(8, self.s.leafw[x]))
            k = 1 if (None if self.verilator else self.s.clock) in self.clocks else 0
            if self.rng.random() < 0.5:
                v = self.rng.randrange(2)
                e["tb.rst"] = v
                if v and not self.rst and "tb.rst" in self.clocks:
                    k += 1
                self.rst = v
            es.append(e)
            want.append(k)
        return es, want

    def count(self, what, n=None):
        """runs freely and counts the evaluations"""
        s, h = self.s, self.h
        n = n or self.rng.randrange(1, 6)
        es, want = self.edges(n)
        c = self.watch()
        c.request("command", {"command": "continue"})
        c.async_msgs.clear()
        m = h.run(es)
        h.wait("done", m, what=f"{what}: the simulation does not run freely although nothing is inserted")
        self.tally(c, what, sum(want), [])

    def tally(self, c, what, want, slack):
        c.request("debugger-info", {"command": "status"})
        got = 0
        for x in c.async_msgs:
            if x.get("type") == "monitor" and x["payload"]["track_id"] == self.track:
                got += 1
            elif x.get("type") == "breakpoint":
                raise S.Bad(("C26", "C05"), f"{what}: a breakpoint is reported although none is inserted: {x}")
        c.async_msgs.clear()
        if got != want and got not in slack:
            raise S.Bad("C26", f"{what}: {got} evaluations instead of {want}")
        self.st("evaluations_counted", got)

    # ---- clients
    def new_client(self):
        self.cs.append(self.h.client())
        self.s.c = self.cs[-1]

    def drop(self, c):
        (c.ws.abort if self.rng.random() < 0.4 else c.close)()
        if c in self.cs:
            self.cs.remove(c)

    def leave(self, detach):
        """every client goes"""
        self.cs[-1].request("option-change", {"detach_after_disconnect": detach})
        while self.cs:
            self.drop(self.rng.choice(self.cs))
        if detach:
            self.clocks = set()

    def settle(self, what):
        """callbacks are as they should be before long (the loss of the last client is noticed by the server)"""
        deadline = time.time() + 10
        while True:
            try:
                return self.check_cbs(what)
            except S.Bad:
                if time.time() > deadline:
                    raise
                time.sleep(0.005)

    def alone(self, what):
        es, want = self.edges(self.rng.randrange(1, 5))
        m = self.h.run(es)
        self.h.wait("done", m, what=f"{what}: the simulation does not run although nobody is connected")


def session(case, cfg):
    rng = random.Random(case)
    verilator = rng.random() < 0.25
    flat = rng.random() < 0.4
    T = D.flat_table(rng, n_insts=rng.randrange(1, 4), n_stmts=rng.randrange(1, 5), cond_p=0.3, ctx=False) if flat else e2e.json_table(rng, cfg)
    flat = bool(T.flat)
    env = {}
    if rng.random() < 0.4:
        env = {"JITTER": str(rng.choice([20, 100, 300])), "JITTER_SEED": str(rng.randrange(1 << 30))}
    by = "root" if rng.random() < 0.7 else "name"
    anns = {"one": ["$root.tb.clk"], "twice": ["$root.tb.clk", "$root.tb.clk"], "two": ["$root.tb.clk", "$root.tb.rst"], "other": ["$root.tb.rst"]}
    if by == "name":
        anns["none"] = []
        anns["local"] = [T.top + ".clk"]
    kind0 = rng.choice(list(anns))
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), product="Verilator" if verilator else "RTLMock", env=env, rich=False, clock_by=by,
                  ann={"clock": anns[kind0]} if anns[kind0] else {})
    h = s.host
    try:
        first = s.bfs_occ()[0]

        def clocks(k):
            if verilator:
                return {None}
            return {x[6:] for x in anns[k] if x.startswith("$root.")} | ({first + ".clk"} if k in ("none", "local") else set())
        tables = {}
        if flat:
            tables[kind0] = ("unused", clocks(kind0))
        else:
            for k, l in anns.items():
                T.json["attributes"] = [{"name": "clock", "value": v} for v in l]
                p = os.path.join(h.dir, f"t_{k}.json")
                with open(p, "w") as f:
                    json.dump(T.json, f)
                tables[k] = (p, clocks(k))
            tables["bad"] = ("/no/such/table.json", None)
        w = World(s, rng, verilator, tables)
        goods = [k for k, v in tables.items() if v[1] is not None]
        main = None if verilator else s.clock
        w.new_client()
        w.check_cbs("before the first connection")
        w.connect(rng.choice(goods))
        s.design()
        seen = []
        for step in range(rng.randrange(3, 10)):
            k = rng.random()
            if k < 0.2:
                seen.append("again")
                if rng.random() < 0.4:
                    w.new_client()
                for _ in range(rng.choice([1, 1, 2, 3])):
                    w.connect(rng.choice(goods), rng.choice(w.cs))
                w.count("after connecting again")
            elif k < 0.3 and not flat:
                seen.append("bad")
                w.connect("bad")
                if rng.random() < 0.6:
                    s.c.request("command", {"command": "continue"})
                    w.alone("after a refused table")
                    w.check_cbs("after a refused table", True)
                w.connect(rng.choice(goods))
                w.count("after a table was refused and one accepted")
            elif k < 0.4:
                seen.append("clients")
                for _ in range(rng.randrange(1, 4)):
                    w.new_client()
                    if rng.random() < 0.5 and len(w.cs) > 1:
                        w.drop(rng.choice(w.cs[:-1]))
                w.check_cbs("after clients came and went")
                w.count("after clients came and went")
            elif k < 0.7:
                # everybody leaves
                detach = rng.random() < 0.7
                if not h.count("started"):
                    s.c.request("command", {"command": "continue"})
                    h.wait("started", 0, what="the first command does not start the simulation")
                seen.append("leave" if detach else "leave-attached")
                w.leave(detach)
                if detach:
                    w.settle("after every client has gone")
                if rng.random() < 0.6:
                    w.alone("after every client has gone")
                    w.check_cbs("while nobody is connected")
                w.new_client()
                if rng.random() < 0.4:
                    s.c.request("debugger-info", {"command": "status"})
                    w.check_cbs("after a client connected without a table")
                    if detach:
                        s.c.request("command", {"command": "continue"})
                        w.alone("no client has loaded a table")
                        if any(m.get("type") in ("breakpoint", "monitor") for m in s.c.async_msgs):
                            raise S.Bad("C26", f"an evaluation although the debugger is detached: {s.c.async_msgs[:3]}")
                w.connect(rng.choice(goods))
                w.count("after everybody left and one came back")
            elif k < 0.9:
                # standing at a breakpoint
                always = [b for b in T.bps.values() if not b.cond and not b.trigger]
                if not always:
                    continue
                if main not in w.clocks:
                    w.connect(next((g for g in goods if main in tables[g][1]), goods[0]))
                    if main not in w.clocks:
                        continue
                b = rng.choice(always)
                s.c.request("breakpoint-id", {"id": b.id, "action": "add"})
                s.c.request("command", {"command": "continue"})
                c = s.c
                es, want = w.edges(rng.randrange(2, 7))
                # only the main clock moves
                for e in es:
                    e.pop("tb.rst", None)
                w.rst = h.ask("values")["v"]["tb.rst"]
                mark = h.run(es)
                m = None
                deadline = time.time() + h.timeout
                while m is None or m.get("type") != "breakpoint":
                    m = c.next_async(0.1)
                    h.check_alive()
                    if time.time() > deadline:
                        raise S.Bad("C26", f"the simulation does not stop at breakpoint {b.id}, which has no condition: {h.progress()}")
                at = h.progress()["cur"]
                p0 = at - (m["payload"]["time"] // s.tunit - 1)
                if p0:
                    raise S.Bad("C06", f"the report carries time {m['payload']['time']} at edge {at}")
                left = h.ask("progress")
                what = rng.choice(["vanish", "connect", "another", "remove"])
                seen.append("paused-" + what)
                if what == "vanish":
                    w.leave(True)
                    h.wait("done", mark, what="the simulation still waits although every client has gone")
                    w.settle("after every client left a standing simulation")
                    w.alone("after every client left a standing simulation")
                    w.new_client()
                    w.connect(rng.choice(goods))
                    s.c.request("breakpoint-id", {"id": b.id, "action": "remove"})
                    w.count("after a standing simulation was left and one came back")
                else:
                    if what == "another":
                        w.new_client()
                        if rng.random() < 0.5 and len(w.cs) > 1:
                            w.drop(w.cs[0])
                        c = w.cs[-1]
                    if what != "remove":
                        w.connect(rng.choice(goods), c)
                        w.check_cbs("after a connection while the simulation stands")
                    c.request("breakpoint-id", {"id": b.id, "action": "remove"})
                    s.c = c
                    w.cs.remove(c)
                    w.cs.append(c)
                    w.watch()
                    c.request("debugger-info", {"command": "status"})
                    c.async_msgs.clear()
                    base = at + 1
                    rest = len([e for e in h.events[mark:] if e["e"] == "ee"])
                    c.request("command", {"command": "continue"})
                    h.wait("done", mark, what="the simulation does not run on although nothing is inserted")
                    n = (len(es) - rest - 1) * (main in w.clocks)
                    w.tally(c, f"after {what} while the simulation stood", n, [n + 1])
            else:
                seen.append("run")
                w.count("another run")
        if not any(main in tables[g][1] for g in goods) or rng.random() < 0.3:
            # the end
            k = rng.random()
            if k < 0.3:
                w.leave(True)
            elif k < 0.6:
                s.c.send("command", {"command": "stop"})
        else:
            g = rng.choice([g for g in goods if main in tables[g][1] and "tb.rst" not in tables[g][1]] or [None])
            if g:
                e2e.resync(s, tables[g][0])
                if rng.random() < 0.5:
                    e2e.insert_everything(s, rng)
                else:
                    for _ in range(4):
                        e2e.random_insert(s, rng)
                e2e.drive(s, rng, rng.randrange(2, 6), cmd=lambda n: rng.choice(["continue", "step_over"]))
                s.stat("debugged_as_before")
        if not h.count("started"):
            s.c.request("command", {"command": "continue"})
        h.finish()
        fin = next(e for e in h.events if e["e"] == "finished")
        left = [x for x in fin["cbs"] if x[0] in (VALUE, NEXT)]
        if left:
            raise S.Bad("C26", f"callbacks are left after the end: {left}")
        return {"key": f"{verilator}/{flat}/{by}/{seen}", "stats": s.stats, "reports": s.reports, "edges": len(s.plan)}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 480, 5000,
                            "histories of connections (also repeated, to other tables with one, two or repeated clocks, and refused), clients coming and going, "
                            "detaching, stopping and connecting again, also while the simulation stands, for both ways of attaching; after every step the callbacks "
                            "registered with the simulator are compared with the clocks of the table, and evaluations are counted edge by edge through a monitor; at "
                            "the end a model-checked session must work")
