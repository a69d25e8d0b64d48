"""C19: clients, the simulator and evaluation threads never race, never use what is gone and never block each other for good.

The real debugger under ThreadSanitizer (and, with delays around every lock, AddressSanitizer), with several clients in threads of
their own doing everything at once while the simulation evaluates, pauses, steps and is detached. Deadlocks show as requests that are
not answered or a simulation that does not go on; what remains afterwards is judged by the model."""
import json, os, random, threading, time
import design as D
import hostile
import scen as S
import e2e
from ctx import *
from host import Violation, Hang
from ws import WSClosed
from c11 import Line


class Actor(threading.Thread):
    """a client that sends whatever it likes, keeping at most a few messages unanswered"""

    def __init__(self, s, seed, T, n_ns, commands, until, pace, conns=()):
        super().__init__(daemon=True)
        self.s, self.rng, self.until, self.pace = s, random.Random(seed), until, pace
        self.G = hostile.Gen(self.rng, T, ns=range(n_ns), commands=commands, connections=conns)
        self.error = None
        self.sent = 0
        self.line = Line(s, s.host.client())

    def run(self):
        try:
            while not self.until.is_set():
                for _ in range(self.rng.randrange(1, 8)):
                    t, p = self.G.valid()
                    self.line.request(t, p, f"k{self.sent}", rng=self.rng)
                    self.sent += 1
                self.line.collect()
                if self.pace:
                    time.sleep(self.rng.random() * self.pace)
        except Exception as e:  # noqa
            self.error = e


class Comer(threading.Thread):
    """clients that come and go"""

    def __init__(self, s, seed, T, until):
        super().__init__(daemon=True)
        self.s, self.rng, self.T, self.until = s, random.Random(seed), T, until
        self.error, self.n = None, 0

    def run(self):
        r = self.rng
        try:
            while not self.until.is_set():
                l = Line(self.s, self.s.host.client())
                c = l.c
                G = hostile.Gen(r, self.T, commands=["continue"])
                wait = r.random() < 0.5
                for i in range(r.randrange(0, 4)):
                    # what is still on its way when a client leaves may be served later and must not change anything then
                    t, p = G.valid(None if wait else r.choice(["evaluation", "debugger-info", "bp-location"]))
                    l.request(t, p, f"k{i}", rng=r)
                if wait:
                    l.collect()
                if r.random() < 0.5:
                    time.sleep(r.random() * 0.01)
                (c.close if r.random() < 0.5 else c.ws.abort)()
                self.n += 1
                time.sleep(r.random() * 0.02)
        except Exception as e:  # noqa
            self.error = e


def to_the_end(s, T, main, good):
    """nothing but this client is left: the simulation must go on to the end of its edges"""
    h = s.host
    main.request("connection", {"db_filename": good}, "x1")
    for b in T.bps:
        main.request("breakpoint-id", {"id": b, "action": "remove"}, None)
    main.request("data-breakpoint", {"action": "clear"}, None)
    main.collect()
    last, since = None, time.time()
    while h.wait_event(lambda e: e["e"] == "done", s.run_mark, 0.005) is None:
        main.request("command", {"command": "continue"}, "x4", "success")
        main.collect()
        p = h.progress()
        if p["n"] != last:
            last, since = p["n"], time.time()
        elif time.time() - since > 40:
            raise Hang(f"the simulation cannot be made to go on: {p}")


def session(case, cfg):
    rng = random.Random(case)
    tsan = int(case.split("/")[-1]) % 3 != 2
    flat = rng.random() < 0.7
    many = flat and rng.random() < 0.5
    # many instances of a statement are evaluated by several threads at once
    T = (D.flat_table(rng, n_insts=rng.randrange(36, 60) if many else rng.randrange(1, 6), data=True, rich=rng.random() < 0.3, cond_p=0.5, delays=0.3,
                      triggers=0.2, order="stmt" if many else None, n_stmts=rng.randrange(1, 4) if many else None, n_mods=1 if many else 3) if flat else e2e.json_table(rng, cfg))
    flat = bool(T.flat)
    env = {}
    if not tsan and rng.random() < 0.8:
        env = {"JITTER": str(rng.choice([20, 100, 300])), "JITTER_SEED": str(rng.randrange(1 << 30))}
    s = S.Session(cfg["tsan"] if tsan else cfg["exe"], T, rng, n_occ=rng.choice([1, 2, 2]) if many else rng.choice([1, 1, 2]), env=env,
                  rewind=rng.random() < 0.3, timeout=40.0)
    h = s.host
    stats = {}
    try:
        s.start()
        good = "unused" if flat else os.path.join(h.dir, "table.json")
        main = Line(s, s.c)
        cmds = ["continue", "continue", "step_over", "step_back", "reverse_continue"]
        phases = rng.randrange(1, 3)
        detach = rng.random() < 0.4
        for ph in range(phases):
            main.request("option-change", {"detach_after_disconnect": detach}, "o")
            main.collect()
            main.request("connection", {"db_filename": good}, "o2")
            main.collect()
            e2e_bps = list(T.bps)
            for b in rng.sample(e2e_bps, len(e2e_bps) if many else min(len(e2e_bps), 80)):
                main.request("breakpoint-id", {"id": b, "action": "add"}, None)
            main.collect()
            if rng.random() < 0.2:
                main.request("option-change", {"single_thread_mode": rng.random() < 0.5, "use_signal_cache": rng.random() < 0.5}, "o3")
                main.collect()
            stop = threading.Event()
            # one connection again and again changes the whole table under the evaluation
            conns = [good] if rng.random() < 0.3 else ()
            actors = [Actor(s, rng.random(), T, len(s.occ), cmds, stop, rng.choice([0, 0.002, 0.01]), conns) for _ in range(rng.choice([1, 2, 2, 3]))]
            comers = [Comer(s, rng.random(), T, stop) for _ in range(rng.choice([0, 0, 1, 2]))]
            s.run_mark = h.run(s.make_edges(rng.randrange(10, 40)))
            for a in actors + comers:
                a.start()
            deadline = time.time() + rng.choice([0.5, 1.0, 2.0])
            hard = time.time() + 60
            leave = rng.random() < 0.35
            while h.wait_event(lambda e: e["e"] == "done", s.run_mark, 0.003) is None:
                main.request("command", {"command": "continue" if rng.random() < 0.7 else rng.choice(cmds)}, "c", "success")
                main.collect()
                if time.time() > deadline:
                    break
                if time.time() > hard:
                    raise Hang(f"the simulation cannot be made to go on: {h.progress()}")
            stop.set()
            for a in actors + comers:
                a.join(60)
                if a.is_alive():
                    raise Hang("a client is not served any more")
                if a.error:
                    if isinstance(a.error, (OSError, WSClosed)):
                        h.check_alive()
                    raise a.error
            stats["messages"] = stats.get("messages", 0) + sum(a.sent for a in actors)
            stats["comers"] = stats.get("comers", 0) + sum(c.n for c in comers)
            if not leave:
                to_the_end(s, T, main, good)
            if leave:
                # everybody leaves at whatever moment this is; somebody comes back
                ls = [main] + [a.line for a in actors]
                ts = [threading.Thread(target=l.c.close if rng.random() < 0.5 else l.c.ws.abort) for l in ls]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join(20)
                stats["left"] = stats.get("left", 0) + 1
                if rng.random() < 0.5:
                    time.sleep(rng.random() * 0.02)
                main = Line(s, h.client())
                s.c = main.c
                to_the_end(s, T, main, good)
            else:
                for a in actors:
                    (a.line.c.close if rng.random() < 0.5 else a.line.c.ws.abort)()
        s.c = main.c
        end = rng.random()
        if end < 0.6:
            # and still it works
            main.request("option-change", {"detach_after_disconnect": False}, "o")
            main.collect()
            e2e.resync(s, good, props=("C19", "C26"))
            e2e.insert_everything(s, rng)
            try:
                e2e.drive(s, rng, rng.randrange(2, 5))
            except S.Bad as e:
                # what a session in order does is judged by the other properties too, but here it follows a storm
                raise S.Bad(tuple(e.props if isinstance(e.props, (tuple, list)) else [e.props]) + ("C19",), e.what, e.detail)
            stats["judged"] = 1
            h.finish()
        elif end < 0.8:
            # stopped while clients still talk
            stop = threading.Event()
            actors = [Actor(s, rng.random(), T, len(s.occ), ["continue"], stop, 0) for _ in range(2)]
            for a in actors:
                a.start()
            time.sleep(rng.random() * 0.05)
            if rng.random() < 0.5:
                main.c.send("command", {"command": "stop"})
            m = h.mark()
            h.cmd(c="finish")
            h.wait("finished", m, what="the debugger does not shut down while clients are talking")
            h.p.wait(30)
            stop.set()
            h.check_alive()
            rep = h.sanitizer_report()
            if rep:
                raise Violation("sanitizer report: " + S_summary(rep), rep)
            stats["stopped_busy"] = 1
        else:
            h.finish()
        rep = h.sanitizer_report()
        if rep:
            raise Violation("sanitizer report: " + S_summary(rep), rep)
        stats["tsan" if tsan else "asan"] = 1
        if many:
            stats["many"] = 1
        p = {k: v for k, v in s.stats.items() if isinstance(v, int)}
        return {"key": f"{case} {sorted(stats.items())}", "stats": {**p, **stats}, "reports": s.reports, "edges": len(s.plan)}
    finally:
        s.close()


def S_summary(rep):
    from host import summary
    return summary(rep)


def run(ctx):
    ctx.tsan = ctx.build("tsan", "simhost")["simhost"]
    fn = with_tsan(session, ctx.tsan)
    return e2e.run_sessions(ctx, fn, 240, 4000,
                            "sessions in which two to eight clients act concurrently while the simulation evaluates, pauses and is detached; two thirds under "
                            "ThreadSanitizer, one third under AddressSanitizer with delays at every lock; distinct by case and by how many messages got "
                            "in during the run")


class with_tsan:
    def __init__(self, fn, exe):
        self.fn, self.exe = fn, exe

    def __call__(self, case, cfg):
        return self.fn(case, {**cfg, "tsan": self.exe})
