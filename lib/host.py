"""Drives simhost: the process, its event stream and WebSocket clients."""
import fcntl, json, os, queue, random, signal, socket, subprocess, tempfile, threading, time, shutil
from ws import WSClient, WSClosed

ASAN_OPTIONS = "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=1:allocator_may_return_null=1"
UBSAN_OPTIONS = "print_stacktrace=1:halt_on_error=1:exitcode=98"
TSAN_OPTIONS = "halt_on_error=0:exitcode=97:second_deadlock_stack=1:history_size=4:suppressions=" + \
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "tsan.supp")


class Violation(Exception):
    """the code under test broke the property"""
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what, self.detail = what, detail


class Hang(Violation):
    pass


class HarnessError(Exception):
    pass


_port_lock = threading.Lock()
_block = None
_next = 0


def free_port():
    """a port nobody else uses: every process claims a block of ports for itself"""
    global _block, _next
    with _port_lock:
        if _block is None or _block[0] != os.getpid():
            d = os.path.join(tempfile.gettempdir(), "hgdb_verif_ports")
            os.makedirs(d, exist_ok=True)
            for i in range(40):
                f = open(os.path.join(d, str(i)), "w")
                try:
                    fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
                except OSError:
                    f.close()
                    continue
                _block = (os.getpid(), 12000 + i * 500, f)
                break
            else:
                raise HarnessError("no port block")
        for _ in range(500):
            p = _block[1] + _next % 500
            _next += 1
            s = socket.socket()
            try:
                s.bind(("127.0.0.1", p))
                return p
            except OSError:
                pass
            finally:
                s.close()
    raise HarnessError("no port")


def child_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith("DEBUG_")}
    env.update(ASAN_OPTIONS=ASAN_OPTIONS, UBSAN_OPTIONS=UBSAN_OPTIONS, TSAN_OPTIONS=TSAN_OPTIONS,
               ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18")
    if extra:
        env.update(extra)
    return env


class SimHost:
    """cfg: the design (see harness/simvpi.hh); started with a port plus argument unless told otherwise"""

    def __init__(self, exe, cfg, env=None, port=None, extra_args=(), add_port=True, timeout=20.0):
        self.exe = exe
        self.timeout = timeout
        self.port = port or free_port()
        self.dir = tempfile.mkdtemp(prefix="simhost.")
        cfg = dict(cfg)
        cfg["argv"] = list(cfg.get("argv", ["sim"])) + ([f"+DEBUG_PORT={self.port}"] if add_port else []) + list(extra_args)
        self.cfg = cfg
        path = os.path.join(self.dir, "cfg.json")
        with open(path, "w") as f:
            json.dump(cfg, f)
        self.stderr_path = os.path.join(self.dir, "stderr")
        self._err = open(self.stderr_path, "wb")
        self.p = subprocess.Popen([exe, path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self._err,
                                  env=child_env(env), cwd=self.dir, start_new_session=True)
        self.events = []
        self.out_lines = []
        self.q = queue.Queue()
        self.cv = threading.Condition()
        self._tag = 0
        self.clients = []
        self.leaves = leaf_names(cfg)
        self.leaf_index = {n: i for i, n in enumerate(self.leaves)}
        threading.Thread(target=self._reader, daemon=True).start()

    def _reader(self):
        for line in self.p.stdout:
            try:
                ev = json.loads(line)
            except ValueError:
                # log output of the debugger itself
                self.out_lines.append(line)
                continue
            if not isinstance(ev, dict) or "e" not in ev:
                continue
            with self.cv:
                self.events.append(ev)
                self.cv.notify_all()
        with self.cv:
            self.events.append({"e": "EOF"})
            self.cv.notify_all()

    def cmd(self, **kw):
        try:
            self.p.stdin.write((json.dumps(kw) + "\n").encode())
            self.p.stdin.flush()
        except OSError:
            self.check_alive()
            raise HarnessError("stdin closed")

    def wait_event(self, pred, start=0, timeout=None):
        """index of the first event at or after start that satisfies pred; Violation if the process dies"""
        deadline = time.time() + (timeout or self.timeout)
        i = start
        with self.cv:
            while True:
                while i < len(self.events):
                    if pred(self.events[i]):
                        return i
                    if self.events[i]["e"] == "EOF":
                        self.cv.release()
                        try:
                            self.check_alive(True)
                        finally:
                            self.cv.acquire()
                    i += 1
                left = deadline - time.time()
                if left <= 0:
                    return None
                self.cv.wait(left)

    def ask(self, c, timeout=None, **kw):
        self._tag += 1
        tag = self._tag
        start = len(self.events)
        self.cmd(c=c, tag=tag, **kw)
        i = self.wait_event(lambda e: e.get("tag") == tag, start, timeout)
        if i is None:
            raise Hang(f"the simulator process does not answer {c}")
        return self.events[i]

    def mark(self):
        return len(self.events)

    def count(self, name, start=0):
        return sum(1 for e in self.events[start:] if e["e"] == name)

    def progress(self):
        return self.ask("progress")

    def run(self, edges):
        """edges: list of {signal name: value}; returns the mark to wait from"""
        m = self.mark()
        self.cmd(c="run", edges=[[[self.leaf_index[n], v] for n, v in e.items()] for e in edges])
        return m

    def wait(self, name, start=0, timeout=None, what=None):
        i = self.wait_event(lambda e: e["e"] == name, start, timeout)
        if i is None:
            raise Hang(what or f"no '{name}' event from the simulator within {timeout or self.timeout} s")
        return i

    def client(self, **kw):
        try:
            c = Client(self, WSClient(self.port, **kw))
        except (OSError, WSClosed) as e:
            self.check_alive()
            raise HarnessError(f"cannot connect: {e}")
        self.clients.append(c)
        return c

    def stderr(self):
        self._err.flush()
        with open(self.stderr_path, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def sanitizer_report(self):
        s = self.stderr()
        for mark in ("ERROR: AddressSanitizer", "runtime error:", "WARNING: ThreadSanitizer", "ERROR: LeakSanitizer",
                     "Assertion `", "terminate called", "FATAL: ThreadSanitizer", "error: attempt to"):
            i = s.find(mark)
            if i >= 0:
                return compact(s[max(0, i - 200):i + 60000])[:6000]
        return None

    def check_alive(self, expect_dead=False):
        if expect_dead:
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                pass
        rc = self.p.poll()
        if rc is not None and not (rc == 0):
            rep = self.sanitizer_report()
            raise Violation(f"the debugged simulation died (exit {rc}): {summary(rep or self.stderr()[-800:])}",
                            rep or self.stderr()[-3000:])
        if rc == 0 and expect_dead:
            raise HarnessError("simulator exited early")

    def finish(self, timeout=None):
        """end of simulation: the debugger is torn down and the process ends"""
        m = self.mark()
        self.cmd(c="finish")
        self.wait("finished", m, timeout, what="the debugger does not shut down at the end of the simulation")
        try:
            rc = self.p.wait(timeout or self.timeout)
        except subprocess.TimeoutExpired:
            raise Hang("process does not end")
        if rc:
            self.check_alive()
        rep = self.sanitizer_report()
        if rep:
            raise Violation("sanitizer report: " + summary(rep), rep)

    def kill(self):
        for c in self.clients:
            try:
                if c.ws:
                    c.ws.sock.close()
            except OSError:
                pass
        if self.p.poll() is None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self._err.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.kill()


def compact(rep):
    """without the frames of the standard library, asio and websocketpp, which fill pages"""
    return "\n".join(l[:200] for l in rep.splitlines() if not (l.lstrip().startswith("#") and ("/include/c++/" in l or "/usr/include/" in l)))


def summary(rep):
    if not rep:
        return "no report"
    for line in rep.splitlines():
        if any(m in line for m in ("ERROR: ", "runtime error:", "WARNING: ThreadSanitizer", "Assertion", "terminate called", "what():")):
            return line.strip()[:300]
    return rep.strip().splitlines()[-1][:300] if rep.strip() else "no output"


def leaf_names(cfg):
    out = []

    def sig(s, full):
        k = s.get("kind", "net")
        if k == "struct":
            for m in s["members"]:
                sig(m, full + "." + m["name"])
            if not s["members"]:
                out.append(full)
        elif k in ("array", "packed", "memory"):
            for i in range(s["size"]):
                sig(s["elem"], f"{full}[{i}]")
            if not s["size"]:
                out.append(full)
        else:
            out.append(full)

    def mod(m, prefix):
        full = prefix + m["name"]
        for s in m.get("signals", []):
            sig(s, full + "." + s["name"])
        for c in m.get("children", []):
            mod(c, full + ".")
    for m in cfg["modules"]:
        mod(m, "")
    return out


class Client:
    """a debugger client: tokens are attached to requests, asynchronous messages kept in order"""

    def __init__(self, host, ws):
        self.host, self.ws = host, ws
        self.async_msgs = []
        self.log = []
        self.n = 0
        self.prefix = "t%d-" % random.randrange(1 << 30)

    def _next(self, timeout):
        try:
            m = self.ws.recv(timeout)
        except WSClosed:
            return "closed"
        if m is None:
            return None
        try:
            d = json.loads(m.decode("utf-8"))
        except (ValueError, UnicodeDecodeError) as e:
            raise Violation(f"the debugger sent a message that is not valid JSON: {m[:200]!r}", str(e))
        self.log.append(d)
        return d

    def send(self, type, payload=None, token=None, **kw):
        msg = {"request": True, "type": type}
        if payload is not None:
            msg["payload"] = payload
        if token is None:
            self.n += 1
            token = f"{self.prefix}{self.n}"
        msg["token"] = token
        msg.update(kw)
        try:
            self.ws.send(json.dumps(msg))
        except OSError:
            self.host.check_alive()
            raise Violation("the debugger closed the connection")
        return token

    def request(self, type, payload=None, timeout=None, **kw):
        """sends a request and returns its response; everything else received meanwhile is kept in async_msgs"""
        token = self.send(type, payload, **kw)
        return self.response(token, timeout, type)

    def response(self, token, timeout=None, type=""):
        deadline = time.time() + (timeout or self.host.timeout)
        while True:
            left = deadline - time.time()
            d = self._next(max(0.0, left)) if left > 0 else None
            if d is None:
                self.host.check_alive()
                raise Hang(f"no response to the {type} request")
            if d == "closed":
                time.sleep(0.05)
                self.host.check_alive()
                raise Violation(f"connection closed instead of a response to the {type} request")
            if d.get("token") == token:
                return d
            self.async_msgs.append(d)

    def next_async(self, timeout):
        """the next message that is not a response, or None"""
        if self.async_msgs:
            return self.async_msgs.pop(0)
        d = self._next(timeout)
        if d == "closed":
            self.host.check_alive()
            return None
        return d

    def next_hit(self, timeout=None, stop=None):
        """the next breakpoint message; None when stop(event) is seen or after the timeout"""
        deadline = time.time() + (timeout or self.host.timeout)
        while time.time() < deadline:
            d = self.next_async(0.05 if stop else deadline - time.time())
            if d is None:
                if stop and stop():
                    d = self.next_async(0.02)
                    if d is None:
                        return None
                else:
                    self.host.check_alive()
                    continue
            yield_ = d
            return yield_
        return None

    def close(self):
        self.ws.close()
