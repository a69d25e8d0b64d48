"""C30: information requests describe the debugger, the design and the simulator as they are"""
import json, random
import design as D
import scen as S
import e2e
from ctx import *

PIECES = ["sim", "-f", "x.f", "+x=1", "a b", "\"q\"", "\\", "ü", "$HOME", "+DEBUG_LOG=0", "", "%s%n", "{0}", "x" * 300, "\t", "'"]
OPTIONS = ["single_thread_mode", "log_enabled", "detach_after_disconnect", "use_hex_str", "pause_at_posedge", "perf_count", "use_signal_cache"]


def declared_files(t, out=None):
    out = set() if out is None else out
    if isinstance(t, dict):
        if isinstance(t.get("filename"), str):
            out.add(t["filename"])
        for v in t.values():
            declared_files(v, out)
    elif isinstance(t, list):
        for v in t:
            declared_files(v, out)
    return out


class Info:
    def __init__(self, s, rng):
        self.s, self.rng = s, rng
        self.options = None
        self.table = s.T.flat      # those are there from the beginning
        self.clients = []

    def ask(self, cmd, c=None):
        r = (c or self.s.c).request("debugger-info", {"command": cmd})
        self.s.stat("infos")
        return r

    def bad(self, what, got, want):
        raise S.Bad("C30", f"{what}: got {got!r} instead of {want!r}"[:700], {"got": got, "want": want})

    def status(self, paused, c=None):
        s = self.s
        r = self.ask("status", c)
        # the arguments of the host are behind those of the configuration
        want = f"Simulator: {s.cfg['product']} {s.cfg['version']}\nCommand line arguments: {' '.join(s.host.argv)}\nSimulation paused: {'true' if paused else 'false'}\n"
        got = r["payload"]
        if r["status"] != "success" or got.get("command") != "status" or got.get("status") != want:
            self.bad("status", got, want)

    def one(self, paused, c=None):
        s, rng, T = self.s, self.rng, self.s.T
        k = rng.choice(["status", "design", "filename", "location", "location", "location", "breakpoints", "options", "other"])
        if k == "status":
            self.status(paused, c)
        elif k == "design":
            r = self.ask("design", c)
            want = {t: {o: i for i, o in s.ns.items() if s.nstop[i] == t} for t in set(s.nstop.values())} if hasattr(s, "ns") else {}
            if want and r["payload"].get("design") != want:
                self.bad("design", r["payload"], want)
        elif k == "filename":
            r = self.ask("filename", c)
            if not self.table:
                if r["status"] != "error" or not r["payload"].get("reason"):
                    self.bad("file names without a table", r, "an error")
                return
            got = r["payload"]["filenames"]
            every = set(T.files) if T.flat else declared_files(T.json)
            if len(set(got)) != len(got) or not set(T.files) <= set(got) <= every:
                self.bad("file names", got, [T.files, sorted(every)])
        elif k == "location":
            self.location(c)
        elif k == "breakpoints":
            if hasattr(s, "ns"):
                s.list_check()
        elif k == "options":
            r = self.ask("options", c)["payload"]["options"]
            if self.options is None:
                self.options = dict(r)
                if set(OPTIONS) - set(r):
                    self.bad("options", r, sorted(OPTIONS))
            elif r != self.options:
                self.bad("options", r, self.options)
        else:
            x = rng.choice(["what", "", "Status", 3, None, [], "breakpoint"])
            r = (c or s.c).request("debugger-info", {"command": x} if x is not None else {})
            if r["status"] != "error" or not r["payload"].get("reason"):
                self.bad(f"information request {x!r}", r, "an error")

    def change(self):
        if self.options is None:
            return
        n = self.rng.choice(["single_thread_mode", "log_enabled", "use_hex_str", "perf_count", "use_signal_cache"])
        v = self.rng.random() < 0.5
        self.s.ok(self.s.c.request("option-change", {n: v}), True, "C30", "option-change")
        self.options[n] = v
        if n == "use_hex_str":
            self.s.use_hex = v

    def location(self, c=None):
        s, rng, T = self.s, self.rng, self.s.T
        f, l, col = rng.choice(T.locs)
        k = rng.random()
        p = {"filename": f}
        if k < 0.1:
            p["filename"] = rng.choice(["/no/such/file.py", "", f + "x", "x" + f, f[:-1]])
        if k < 0.75:
            p["line_num"] = rng.choice([l, l, l, l + 1, 9999])
            if rng.random() < 0.5:
                p["column_num"] = rng.choice([col, col, 0, 999])
        r = (c or s.c).request("bp-location", p)
        s.stat("locations")
        if not self.table:
            if r["status"] != "error" or not r["payload"].get("reason"):
                self.bad("locations without a table", r, "an error")
            return
        got = sorted((b["id"], b["filename"], b["line_num"], b["column_num"]) for b in r["payload"])
        want = sorted((b.id, b.file, b.line, b.col) for b in T.at(p["filename"], p.get("line_num", 0), p.get("column_num", 0)))
        if r["status"] != "success" or got != want:
            self.bad(f"locations of {p}", got, want)


def session(case, cfg):
    rng = random.Random(case)
    T = e2e.json_table(rng, cfg) if rng.random() < 0.4 else D.flat_table(rng, tops=rng.choice([1, 1, 1, 2]))
    if not T.order:
        return None
    argv = [rng.choice(PIECES) for _ in range(rng.randrange(0, 7))] or ["sim"]
    s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2, 3]), rich=False, product=rng.choice(["RTLMock", "RTLMock", "Icarus Verilog", "xmsim(64)", "VCS"]),
                  cfg_over={"version": rng.choice(["1.0", "v2 (2020-01-01)", "", "\"x\"", "é"]), "argv": argv})
    s.host.argv = list(s.host.cfg["argv"])
    try:
        s.check_frames = False
        i = Info(s, rng)
        cl = s.host.client()
        s.c = cl
        i.status(True)
        for _ in range(rng.randrange(0, 4)):
            i.one(True)
        s.c = None
        s.vary_options = False
        s.start()
        i.table = True
        i.status(True)
        others = [s.host.client() for _ in range(rng.randrange(0, 3))]
        who = [None, cl] + others
        for _ in range(rng.randrange(0, 6)):
            e2e.random_insert(s, rng)
            i.one(True, rng.choice(who))
        edges = rng.randrange(2, 9)
        s.run(s.make_edges(edges))
        s.command("continue" if s.entries else "step_over")
        n = 0
        while True:
            m = s.wait()
            if m is None:
                s.over()
                break
            s.take(m)
            n += 1
            if n < 40:
                if rng.random() < 0.3:
                    i.status(True, rng.choice(who))
                for _ in range(rng.randrange(0, 3)):
                    i.one(True, rng.choice(who))
                if rng.random() < 0.15:
                    i.change()
                if rng.random() < 0.15:
                    e2e.random_edit(s, rng)
            s.command("step_over" if n < 40 and rng.random() < 0.3 else "continue")
        for _ in range(rng.randrange(1, 5)):
            i.one(False, rng.choice(who))
        i.status(False)
        s.host.finish()
        return {"reports": s.reports, "stats": s.stats, "edges": edges, "key": f"{len(T.order)}/{len(argv)}/{s.stats.get('infos')}/{s.reports}"}
    finally:
        s.close()


def run(ctx):
    return e2e.run_sessions(ctx, session, 400, 6000,
                            "information and location requests of several clients before a table is loaded, at every stop and after the simulation; every answer "
                            "is compared with the table, the requests made so far and the simulator's own data")
