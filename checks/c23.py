"""C23: the settings given on the command line and in the environment"""
import fcntl, json, os, random, shutil, socket, tempfile, time
import design as D
import scen as S
import e2e
import host as H
from host import Hang, HarnessError
from ctx import *

DEFAULT = 8888
BAD_NUMBERS = ["abc", "", "-1", "65536", "99999999999999999999", "12x", "0x22b8", " 80", "8 0", "70000", "1e3", "80.5", "--", "4294967296", "18446744073709551617"]


def noise(rng, name):
    """arguments that are not the setting"""
    return rng.choice([f"{name}=1", f"+{name}X", f"+{name}X=7", f"x+{name}=9", f"++{name}", f"-{name}", f"+{name[:-1]}", f"+{name.lower()}", f"--{name}=3",
                       f"+{name.lower()}=5", "", "+", "=", "+=", "+vcs+initreg+0", "-sv_lib", "+define+" + name, "+plus=" + name, f"foo=+{name}",
                       f" +{name}", f"+X{name}=12", f"+A +{name}=4"])


def listening(pid):
    """the ports a process listens on"""
    mine = set()
    try:
        for f in os.listdir(f"/proc/{pid}/fd"):
            try:
                l = os.readlink(f"/proc/{pid}/fd/{f}")
            except OSError:
                continue
            if l.startswith("socket:["):
                mine.add(l[8:-1])
    except OSError:
        return set()
    out = set()
    for n in ("tcp", "tcp6"):
        try:
            with open(f"/proc/net/{n}") as f:
                rows = f.read().splitlines()[1:]
        except OSError:
            continue
        for r in rows:
            c = r.split()
            if c[3] == "0A" and c[9] in mine:
                out.add(int(c[1].rsplit(":", 1)[1], 16))
    return out


class Settings:
    def __init__(self, rng, T, dir):
        self.rng, self.T = rng, T
        self.args, self.env = [], {}
        self.dir = dir

        # the port
        self.lock = None
        k = rng.random()
        port = H.free_port()
        self.port_kind = "arg" if k < 0.4 else "env" if k < 0.65 else "both" if k < 0.8 else "malformed" if k < 0.92 else "none"
        if self.port_kind in ("arg", "both"):
            self.args.append(f"+DEBUG_PORT={port}")
        if self.port_kind == "both":
            self.env["DEBUG_PORT"] = rng.choice([str(H.free_port()), "abc", "0", ""])
        elif self.port_kind == "env":
            self.env["DEBUG_PORT"] = str(port)
        elif self.port_kind == "malformed":
            b = rng.choice(BAD_NUMBERS)
            if rng.random() < 0.5:
                self.args.append("+DEBUG_PORT=" + b)
            else:
                self.env["DEBUG_PORT"] = b
        if self.port_kind in ("malformed", "none"):
            port = DEFAULT
        self.port = port

        def flag(name, p):
            how = rng.choice(["arg", "env", "both"]) if rng.random() < p else "no"
            if how in ("arg", "both"):
                self.args.append("+" + name + rng.choice(["", "=1"]))
            if how in ("env", "both"):
                self.env[name] = rng.choice(["1", "", "yes", "true"])
            return how != "no"
        self.nonblocking = flag("DEBUG_DISABLE_BLOCKING", 0.4)
        self.log = flag("DEBUG_LOG", 0.4)
        self.perf = flag("DEBUG_PERF_COUNT", 0.3)
        self.perf_log = None
        if rng.random() < 0.4:
            # (that it is also looked for in the arguments is not said anywhere)
            self.perf_log = os.path.join(dir, "perf.log")
            self.env["DEBUG_PERF_COUNT_LOG"] = self.perf_log
        # arguments around
        for n in ("DEBUG_PORT", "DEBUG_DISABLE_BLOCKING", "DEBUG_LOG", "DEBUG_PERF_COUNT", "DEBUG_NO_DB"):
            for _ in range(rng.choice([0, 0, 1, 2])):
                self.args.insert(rng.randrange(len(self.args) + 1), noise(rng, n))
        # the table
        self.preload = rng.choice([None, None, "good", "good", "bad", "missing"])
        self.table = os.path.join(dir, rng.choice(["table.json", "a b.json", "t,x.json"]))
        if self.preload == "good":
            self.env["DEBUG_DATABASE_FILENAME"] = self.table
        elif self.preload == "bad":
            p = os.path.join(dir, "bad.json")
            with open(p, "w") as f:
                f.write(rng.choice(["", "{", "[]", "null", '{"generator": "hgdb", "table": 3, "top": []}', "\x00\x01", json.dumps(T.json)[:-5]]))
            self.env["DEBUG_DATABASE_FILENAME"] = p
        elif self.preload == "missing":
            self.env["DEBUG_DATABASE_FILENAME"] = rng.choice([os.path.join(dir, "nosuch.json"), dir, "", "tcp://127.0.0.1:1", "ws://"])
        # breakpoints
        self.bps = []             # (file, line, column, condition) that count
        n = rng.choice([0, 1, 1, 2, 3, 6, 11])
        gap = rng.choice([None, None, None, n // 2 if n else None])
        for i in range(n):
            f, l, c = rng.choice(T.locs)
            text, bp = self.breakpoint(f, l, c)
            if gap is None or i < gap:
                self.env[f"DEBUG_BREAKPOINT{i}"] = text
                if bp:
                    self.bps.append(bp)
            else:
                # the numbers end with the first that is missing
                self.env[f"DEBUG_BREAKPOINT{i + 1}"] = text
        if rng.random() < 0.3:
            f, l, c = rng.choice(T.locs)
            self.env[rng.choice(["DEBUG_BREAKPOINT", "DEBUG_BREAKPOINT-1", "DEBUG_BREAKPOINT00", "DEBUG_BREAKPOINTS0", "DEBUG_BREAKPOINT_0"])] = f"{f}:{l}"

    def breakpoint(self, f, l, c):
        rng = self.rng
        k = rng.random()
        if k < 0.2:
            # nothing that could be a place
            return rng.choice([f, f"{f}:", f"{f}:x", f":{l}", f"{l}", "", "@", "@s0", ":", "::", f"{f}:-{l}", f"{f}:{l}:x", f"{f}:{l}:1:2",
                               f"{f}:99999999999999999999", f"{f}:{l}x", f"{f}:{l + 2**32}", f"{f}: {l}", f"{f}:{l}:2y", f"{f}@s0", f"{f}:{l}:-1"]), None
        line = l if rng.random() < 0.9 else 4321
        col = c if c and rng.random() < 0.5 else 0
        cond = ""
        if rng.random() < 0.5:
            cond = D.cond_text(rng, list(D.SIGS), 1.0) or ""
            if rng.random() < 0.1:
                cond = rng.choice(["nosuch", "s0 +", "s0 == nosuch"])
        if "@" in cond:
            cond = ""
        return f"{f}:{line}" + (f":{col}" if col else "") + (f"@{cond}" if cond else rng.choice(["", "", "@"])), (f, line, col, cond)


def insert(s, st):
    """what the environment inserts each time a table is loaded"""
    s.entries = []
    for f, l, c, cond in st.bps:
        bps = s.T.at(f, l, c)
        bps.sort(key=lambda b: b.id)
        s.add(bps, cond, "loc")


def check_list(s):
    try:
        s.list_check()
    except S.Bad as e:
        raise S.Bad("C23", "breakpoints from the environment: " + e.what, e.detail)


def mine(f, *a):
    """what is hit is decided by what was given"""
    try:
        f(*a)
    except S.Bad as e:
        p = e.props if isinstance(e.props, tuple) else (e.props,)
        raise S.Bad(("C23",) + p, e.what, e.detail)


def info_lines(s):
    return sum(1 for l in s.host.out_lines if l.startswith(b"[INFO]"))


def session(case, cfg):
    rng = random.Random(case)
    T = e2e.json_table(rng, cfg)
    if not T.order or T.flat:
        return None
    dir = tempfile.mkdtemp(prefix="c23.")
    st = Settings(rng, T, dir)
    lock = None
    s = None
    try:
        if st.port == DEFAULT:
            lock = open(os.path.join(tempfile.gettempdir(), "hgdb_verif_port_8888"), "w")
            fcntl.flock(lock, fcntl.LOCK_EX)
            try:
                socket.create_connection(("127.0.0.1", DEFAULT), 1).close()
                return None         # somebody else has it
            except OSError:
                pass
        s = S.Session(cfg["exe"], T, rng, n_occ=rng.choice([1, 1, 2]), rich=False, env=st.env, port=st.port, add_port=False, extra_args=st.args,
                      table_file=st.table)
        s.vary_options = False      # the options are what is judged here
        return judge(s, st, rng)
    except S.Bad as e:
        e.detail = {"args": st.args, "env": st.env, "detail": e.detail}
        raise
    except Violation as e:
        if s and e.detail is None:
            e.detail = {"args": st.args, "env": st.env}
        raise
    finally:
        if s:
            s.close()
        if lock:
            lock.close()
        shutil.rmtree(dir, ignore_errors=True)


def judge(s, st, rng):
    h, T = s.host, s.T
    # where it listens
    deadline = time.time() + h.timeout
    while not (ports := listening(h.p.pid)):
        h.check_alive()
        if time.time() > deadline:
            raise S.Bad("C23", f"the debugger does not listen on port {st.port}")
        time.sleep(0.01)
    if ports != {st.port}:
        raise S.Bad("C23", f"the debugger listens on {sorted(ports)} instead of {st.port}")
    s.stat("port_" + st.port_kind)
    s.check_frames = False
    connect = st.preload != "good" or rng.random() < 0.2
    if not connect:
        s.start(connect=False)
        s.stat("preloaded")
    else:
        if st.preload != "good":
            # there is no table yet
            if st.preload:
                s.stat("tables_not_loaded")
            c = h.client()
            r = c.request("debugger-info", {"command": "breakpoints"})
            if r["status"] == "success" and r["payload"]["breakpoints"]:
                raise S.Bad("C23", f"breakpoints without a symbol table: {r}")
        before = info_lines(s)
        s.start()
        if rng.random() < 0.2:
            s.start()
    # the options say what was set
    r = s.c.request("debugger-info", {"command": "options"})
    o = r.get("payload", {}).get("options", {})
    for k, v in (("log_enabled", st.log), ("perf_count", st.perf)):
        if o.get(k) is not v:
            raise S.Bad("C23", f"{k} is {o.get(k)} instead of {v}")
    insert(s, st)
    check_list(s)
    s.stat("inserted_from_environment", len(s.entries))
    # a command line that is not blocked runs without a command
    edges = s.make_edges(rng.randrange(3, 12))
    n0 = info_lines(s)
    s.run(edges)
    if st.nonblocking:
        s.stat("not_blocked")
    else:
        time.sleep(0.15)
        if h.progress()["cur"] >= 0 or h.count("done", s.run_mark):
            raise S.Bad("C23", "the simulation does not wait for the user")
        s.command("continue")
        s.stat("blocked")
    n = 0
    while True:
        try:
            m = s.wait()
        except Hang as e:
            if st.nonblocking and n == 0:
                raise S.Bad("C23", f"the simulation waits although it should not: {e}")
            raise
        if m is None:
            break
        mine(s.take, m)
        n += 1
        s.command("continue")
    mine(s.over)
    s.stat("hits", n)
    # what is logged
    logged = info_lines(s) - n0
    if (logged > 0) != st.log:
        raise S.Bad("C23", f"{logged} lines are logged while the log is {'on' if st.log else 'off'}")
    s.stat("logging" if st.log else "not_logging")
    h.finish()
    # (written when the debugger detaches)
    if st.perf_log:
        have = os.path.exists(st.perf_log) and os.path.getsize(st.perf_log) > 0
        if have != st.perf:
            raise S.Bad("C23", f"performance numbers are {'on' if st.perf else 'off'}, the file for them is {'written' if have else 'not written'}")
        s.stat("perf_log" if have else "no_perf_log")
    return {"key": f"{st.port_kind}/{st.nonblocking}/{st.log}/{st.perf}/{st.preload}/{len(st.bps)}/{len(st.args)}/{n}", "stats": s.stats, "reports": n,
            "edges": len(edges)}


def run(ctx):
    return e2e.run_sessions(ctx, session, 400, 8000, (
        "a debugger is started with random settings in its arguments and its environment, between arguments that look like them; where it listens, "
        "whether it waits, logs, counts, which table it loads and what is inserted and hit is compared with what was set; non-trivial: distinct settings"),
        min_eval=200, min_nontrivial=100)
