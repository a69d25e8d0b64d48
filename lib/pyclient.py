"""The repository's Python client library (bindings/python/hgdb/client.py), driven from the outside."""
import asyncio, importlib.util, logging, os, random, sys, threading
import build as B
from host import Client, SimHost, Violation, Hang, HarnessError

for n in ("websockets", "websockets.server", "websockets.client", "asyncio"):
    logging.getLogger(n).setLevel(logging.CRITICAL + 1)


def load(name="client"):
    """the module as it is in the tree (the package itself needs a compiled module that cannot be built here)"""
    path = os.path.join(B.REPO, "bindings/python/hgdb", name + ".py")
    spec = importlib.util.spec_from_file_location("hgdb_" + name, path)
    m = importlib.util.module_from_spec(spec)
    old, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        spec.loader.exec_module(m)
    finally:
        sys.dont_write_bytecode = old
    return m


def wind_up(loop):
    """nothing may be left half done when the loop is dropped"""
    tasks = asyncio.all_tasks(loop)
    for t in tasks:
        t.cancel()
    try:
        loop.run_until_complete(asyncio.wait_for(asyncio.gather(*tasks, return_exceptions=True), 5))
    except Exception:
        pass
    loop.close()


class Loop:
    """an event loop of its own in a thread"""

    def __init__(self):
        self.loop = asyncio.new_event_loop()
        self.t = threading.Thread(target=self._run, daemon=True)
        self.t.start()

    def _run(self):
        asyncio.set_event_loop(self.loop)
        self.loop.run_forever()
        wind_up(self.loop)

    def call(self, coro, timeout):
        f = asyncio.run_coroutine_threadsafe(coro, self.loop)
        try:
            return f.result(timeout)
        except TimeoutError:
            if f.done():
                raise
            f.cancel()
            raise Hang("a call of the Python client does not return")

    def stop(self):
        self.loop.call_soon_threadsafe(self.loop.stop)
        self.t.join(5)


FLAGS = {"breakpoint", "data-breakpoint", "breakpoint-id"}


def method(py, type, p, rng):
    """the library call that makes this request: (coroutine function, args, kwargs) or None"""
    p = dict(p or {})

    def kw(*names):
        return {n: p[n] for n in names if n in p}
    if type == "breakpoint" and p.get("action") in ("add", "remove") and "filename" in p and "line_num" in p:
        extra = set(p) - {"filename", "line_num", "column_num", "action", "condition"}
        if extra:
            return None
        a = [p["filename"], p["line_num"]]
        k = kw("column_num")
        if p["action"] == "add":
            if "condition" in p:
                k["cond"] = p["condition"]
            return py.set_breakpoint, a, k
        return (None if "condition" in p else (py.remove_breakpoint, a, k))
    if type == "breakpoint-id" and p.get("action") in ("add", "remove") and set(p) <= {"id", "action", "condition"}:
        if p["action"] == "add":
            return py.set_breakpoint_id, [p["id"]], {"cond": p["condition"]} if "condition" in p else {}
        return None if "condition" in p else (py.remove_breakpoint_id, [p["id"]], {})
    if type == "data-breakpoint" and set(p) <= {"var_name", "breakpoint-id", "action", "condition"}:
        if p.get("action") == "add" and {"var_name", "breakpoint-id"} <= set(p):
            return py.set_data_breakpoint, [p["breakpoint-id"], p["var_name"]], {"cond": p["condition"]} if "condition" in p else {}
        if p.get("action") == "remove" and set(p) == {"breakpoint-id", "action"}:
            return py.remove_data_breakpoint, [p["breakpoint-id"]], {}
        return None
    if type == "bp-location" and set(p) <= {"filename", "line_num", "column_num"} and "filename" in p:
        return py.request_breakpoint_location, [p["filename"]], kw("line_num", "column_num")
    if type == "command" and p.get("command") in ("continue", "stop", "step_over", "step_back", "reverse_continue") and len(p) == 1:
        # those give no answer back
        return getattr(py, {"continue": "continue_"}.get(p["command"], p["command"])), [], {}
    if type == "command" and p.get("command") == "jump" and set(p) == {"command", "time"}:
        return py.jump, [p["time"]], {}
    if type == "debugger-info" and set(p) == {"command"}:
        return py.get_info, [p["command"]], {}
    if type == "evaluation" and "expression" in p and set(p) <= {"expression", "namespace_id", "instance_id", "breakpoint_id"}:
        return py.evaluate, [p["expression"]], kw("namespace_id", "instance_id", "breakpoint_id")
    if type == "option-change":
        return py.change_option, [], p
    if type == "set-value" and {"var_name", "value"} <= set(p) <= {"var_name", "value", "instance_id", "breakpoint_id", "namespace_id"}:
        return py.set_value, [p["var_name"], p["value"]], kw("instance_id", "breakpoint_id", "namespace_id")
    if type == "monitor" and p.get("action_type") == "remove" and set(p) == {"action_type", "track_id", "namespace_id"}:
        return py.remove_monitor, [p["track_id"]], kw("namespace_id")
    if type == "monitor" and p.get("action_type") == "add" and p.get("monitor_type") in ("breakpoint", "clock_edge") and \
            {"action_type", "monitor_type", "var_name"} <= set(p) <= {"action_type", "monitor_type", "var_name", "instance_id", "breakpoint_id"}:
        return py.add_monitor, [p["var_name"]], {"monitor_type": p["monitor_type"], **kw("instance_id", "breakpoint_id")}
    return None


CHECKED = {"set_breakpoint", "set_data_breakpoint", "set_breakpoint_id", "remove_breakpoint_id", "remove_data_breakpoint", "get_info",
           "evaluate", "change_option", "set_value"}


class PyClient(Client):
    """a debugger client of the harness whose requests go through the library"""

    def __init__(self, host, port, mod):
        super().__init__(host, None)
        self.mod = mod
        self.loop = Loop()
        self.uri = f"ws://127.0.0.1:{port}"
        self.rng = random.Random(port)
        self.py = mod.HGDBClient(self.uri, None, debug=True)
        self.calls = {}
        self._call(self.py.connect())

    def _call(self, coro, timeout=None):
        try:
            return self.loop.call(coro, timeout or self.host.timeout)
        except (self.mod.HGDBClientException, HarnessError, Violation):
            raise
        except Hang:
            self.host.check_alive()
            raise
        except Exception as e:
            self.host.check_alive()
            raise Violation(f"a call of the Python client ends with {type(e).__name__}: {e}"[:400], None)

    def request(self, type, payload=None, timeout=None, **kw):
        if kw:
            return super().request(type, payload, timeout, **kw)
        if type == "connection":
            old, self.py = self.py, self.mod.HGDBClient(self.uri, payload["db_filename"], payload.get("path-mapping"), debug=True)
            try:
                r = self._call(self.py.connect(), timeout)
            except self.mod.HGDBClientException as e:
                r = {"status": "error", "payload": {"reason": str(e)}, "request": False}
            self._call(old.close())
            return r
        m = method(self.py, type, payload, self.rng)
        if m is None:
            return super().request(type, payload, timeout)
        f, a, k = m
        name = f.__name__
        self.calls[name] = self.calls.get(name, 0) + 1
        strict = name in ("add_monitor", "remove_monitor")
        if name in CHECKED:
            strict = self.rng.random() < 0.5
            k = {**k, "check_error": strict}
        try:
            r = self._call(f(*a, **k), timeout)
        except self.mod.HGDBClientException as e:
            if not strict:
                raise Violation(f"{name} raises though told not to: {e}")
            return {"status": "error", "payload": {"reason": str(e)}, "request": False}
        if name == "add_monitor":
            return {"status": "success", "payload": {"track_id": r[0], "namespace_id": r[1]}}
        if name == "remove_monitor" or (name in ("continue_", "stop", "step_over", "step_back", "reverse_continue") and r is None):
            return {"status": "success", "payload": {}}
        if not isinstance(r, dict):
            raise Violation(f"{name} returns {r!r} instead of an answer")
        if strict and r.get("status") == "error":
            raise Violation(f"{name} returns the refusal {r!r} instead of raising it"[:400])
        return r

    # what the library has no call for goes through its lower level
    def send(self, type, payload=None, token=None, **kw):
        msg = {"request": True, "type": type}
        if payload is not None:
            msg["payload"] = payload
        if token is not None:
            msg["token"] = token
        msg.update(kw)
        self._call(self.py.send(msg))
        return msg["token"]

    def _next(self, timeout):
        if timeout is not None and timeout <= 0:
            timeout = 0.001
        d = self._call(self.py.recv(timeout or 0), (timeout or 0) + self.host.timeout)
        if d is not None:
            self.log.append(d)
        return d

    def close(self):
        try:
            self._call(self.py.close(), 5)
        except Exception:
            pass
        self.loop.stop()


class PyHost(SimHost):
    mod = None

    def client(self, **kw):
        c = PyClient(self, self.port, self.mod or load())
        self.clients.append(c)
        return c

    def kill(self):
        for c in self.clients:
            c.close()
        super().kill()
