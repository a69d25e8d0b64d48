"""Messages nobody should send: valid requests with wrong parts, JSON that is not a request, bytes that are not JSON.

Each comes with what its answer must be: 'error', or None where both are fine."""
import json, random
import design as D

NAMES = list(D.SIGS) + ["a", "b", "c", "val", "clk", "st", "st.x", "arr", "arr[1]", "arr[9]", "vec[3]", "vec[4:1]", "nothing", "", " ", "$time", "$instance",
                        "a b", "ü", "\u0001", "x" * 3000, "s0.s0", ".", "..", "s0.", ".s0", "s3[", "s3]", "[0]", "s3[-1]", "s3[99999999999999999999]",
                        "s3[0][0]", "$", "$root", "$root.tb.clk", "tb", "tb.clk", "\"", "\\", "%s%n", "{0}", "{}"]
FILES = ["/src/a.py", "a.py", "b.py", "/no/such", "", ".", "/", "..", "\u0000", "ü", "x" * 5000, "/src/../src/a.py", "//", "c:\\x", "{0}"]
EXPRS = ["s0", "s0 + 1", "s0 +", "(", ")", "((s0))", "1 / 0", "1 % 0", "s3 / s0", "-" * 50 + "1", "!" * 50 + "s0", "1 << 64", "1 << -1", "1 >> 200",
         "9223372036854775807 + 1", "99999999999999999999999", "0xffffffffffffffff", "0x", "0b12", "$time", "$time == $time", "$nothing", "a.b.c", "",
         " ", "s0 s1", "s0 = 1", "s0 == ", "\u0000", "ü == 1", "{", "%", "s3[2:1]", "s3[9]", "a == \"x\"", "1.5", "(" * 60 + "1" + ")" * 60]
OPTIONS = ["single_thread_mode", "detach_after_disconnect", "use_hex_str", "pause_at_posedge", "perf_count", "use_signal_cache", "nothing", ""]
NUM = [0, 1, 2, 3, 5, 7, 100, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1]
NOT_U64 = [-1, -2**63, 2**64, 1e300, 1.5, "1", "", None, True, [], {}, [1]]
NOT_STR = [1, 0, -1, None, True, False, 1.5, [], {}, ["continue"], {"x": "y"}]
TYPES = ["breakpoint", "breakpoint-id", "bp-location", "command", "debugger-info", "path-mapping", "evaluation", "option-change", "monitor", "set-value",
         "data-breakpoint"]
STATIC = {   # required strings and numbers of each request
    "breakpoint": (("filename", "action"), ()), "breakpoint-id": (("action",), ("id",)), "connection": (("db_filename",), ()),
    "bp-location": (("filename",), ()), "command": (("command",), ()), "debugger-info": (("command",), ()), "evaluation": (("expression",), ()),
    "monitor": (("action_type",), ()), "set-value": (("var_name",), ()), "data-breakpoint": (("action",), ())}


class Gen:
    def __init__(self, rng, table, ns=(0,), commands=("continue", "step_over"), connections=()):
        self.r, self.T, self.ns = rng, table, list(ns)
        self.commands, self.connections = commands, connections

    def bp(self):
        return self.r.choice(list(self.T.bps.values()))

    def num(self):
        return self.r.choice(NUM) if self.r.random() < 0.3 else self.r.randrange(6)

    def id(self):
        return self.bp().id if self.r.random() < 0.7 else self.num()

    def file(self):
        return self.bp().file if self.r.random() < 0.7 else self.r.choice(FILES)

    def scope(self, p):
        r = self.r
        if r.random() < 0.4:
            p["instance_id"] = r.choice(list(self.T.insts)) if r.random() < 0.7 else self.num()
        if r.random() < 0.4:
            p["breakpoint_id"] = self.id()
        if r.random() < 0.7:
            p["namespace_id"] = r.choice(self.ns) if r.random() < 0.8 else self.num()
        return p

    def name(self):
        r = self.r
        if r.random() < 0.3:
            b = self.bp()
            return b.iname + "." + r.choice(D.SIGS)
        return r.choice(NAMES)

    def valid(self, type=None):
        """type and payload of a request with all its parts in place"""
        r = self.r
        t = type or r.choice(TYPES + (["connection"] if self.connections else []))
        if t == "breakpoint":
            b = self.bp()
            p = {"filename": self.file(), "line_num": b.line if r.random() < 0.8 else self.num(), "action": r.choice(["add", "add", "remove"])}
            if r.random() < 0.3:
                p["column_num"] = r.choice([b.col, self.num()])
            if r.random() < 0.4:
                p["condition"] = r.choice(EXPRS)
        elif t == "breakpoint-id":
            p = {"id": self.id(), "action": r.choice(["add", "add", "remove"])}
            if r.random() < 0.4:
                p["condition"] = r.choice(EXPRS)
        elif t == "connection":
            p = {"db_filename": r.choice(self.connections)}
            if r.random() < 0.4:
                p["path-mapping"] = r.choice([{}, {"/a": "/b"}, {"": ""}, {"/src": "/tmp"}, {"/": "/"}])
        elif t == "bp-location":
            p = {"filename": self.file()}
            if r.random() < 0.6:
                p["line_num"] = r.choice([self.bp().line, self.num()])
            if r.random() < 0.4:
                p["column_num"] = r.choice([self.bp().col, self.num()])
        elif t == "command":
            p = {"command": r.choice(self.commands)}
            if p["command"] == "jump":
                p["time"] = self.num()
        elif t == "debugger-info":
            p = {"command": r.choice(["breakpoints", "status", "options", "design", "filename"])}
        elif t == "path-mapping":
            p = {"path-mapping": r.choice([{}, {"/a": "/b"}, {"/a/": "/b"}, {"": "x"}, {"a": ""}, {"/src": "/src"}])}
        elif t == "evaluation":
            p = self.scope({"expression": r.choice(EXPRS) if r.random() < 0.5 else self.name(), "scope": "", "is_context": r.random() < 0.5})
        elif t == "option-change":
            p = {r.choice(OPTIONS): r.choice([True, False, False, 1, 0, -5, "on", ""]) for _ in range(r.randrange(0, 3))}
            p.pop("pause_at_posedge", None)
            p.pop("detach_after_disconnect", None)
        elif t == "monitor":
            if r.random() < 0.6:
                p = self.scope({"action_type": "add", "monitor_type": r.choice(["breakpoint", "clock_edge", "changed"]), "var_name": self.name()})
            else:
                p = {"action_type": "remove", "track_id": self.num()}
                if r.random() < 0.7:
                    p["namespace_id"] = r.choice(self.ns) if r.random() < 0.7 else self.num()
        elif t == "set-value":
            p = self.scope({"var_name": self.name(), "value": r.choice([0, 1, 3, -1, 2**31, 2**63 - 1, -2**63])})
        else:
            a = r.choice(["add", "add", "info", "clear", "remove"])
            p = {"action": a, "var_name": r.choice(["da", "db", "dc", "a", "b", "c", "val"] + NAMES), "breakpoint-id": self.id()}
            if r.random() < 0.3:
                p["condition"] = r.choice(EXPRS)
            if r.random() < 0.7:
                p["namespace_id"] = r.choice(self.ns) if r.random() < 0.8 else self.num()
        return t, p

    def invalid(self):
        """a request that lacks a required part or has a wrong one: the answer must be an error"""
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return r.choice(["nothing", "", "Breakpoint", "error", "generic", "symbol", "breakpoint ", "x" * 2000]), {"x": 1}
        if k == 1:
            return r.choice(TYPES), r.choice([1, "text", None, [], [1, 2], True, 1.5, ""])
        if k == 2:
            t = r.choice(sorted(set(STATIC) - (set() if self.connections else {"connection"})))
            _, p = self.valid(t)
            f = r.choice(STATIC[t][0] + STATIC[t][1])
            if r.random() < 0.5:
                p.pop(f, None)
            else:
                p[f] = r.choice(NOT_STR if f in STATIC[t][0] else NOT_U64)
            return t, p
        if k == 3:
            # a value that is not one of the allowed ones
            t, f = r.choice([("breakpoint", "action"), ("breakpoint-id", "action"), ("command", "command"), ("debugger-info", "command"),
                             ("monitor", "action_type"), ("data-breakpoint", "action")])
            _, p = self.valid(t)
            p[f] = r.choice(["", "nothing", "Add", "add ", "x" * 2000, "ü"])
            return t, p
        if k == 4:
            return r.choice([("breakpoint", {"filename": self.file(), "action": "add", "line_num": r.choice(NOT_U64)}),
                             ("breakpoint", {"filename": self.file(), "action": "add"}),
                             ("command", {"command": "jump"}), ("command", {"command": "jump", "time": r.choice(NOT_U64)}),
                             ("monitor", {"action_type": "add", "var_name": "s0"}), ("monitor", {"action_type": "add", "monitor_type": "clock_edge"}),
                             ("monitor", {"action_type": "add", "monitor_type": "never", "var_name": "s0"}),
                             ("monitor", {"action_type": "remove"}), ("monitor", {"action_type": "remove", "track_id": r.choice(NOT_U64)}),
                             ("set-value", {"var_name": "s0"}),
                             ("set-value", {"var_name": "s0", "value": r.choice([2**63, -2**63 - 1, 1.5, "1", None, True, [], {}])}),
                             ("path-mapping", {}), ("path-mapping", {"path-mapping": r.choice([1, "a", None, [], {"a": 1}, {"a": None}])}),
                             ("data-breakpoint", {"action": "add", "breakpoint-id": self.id()}), ("data-breakpoint", {"action": "remove"}),
                             ("data-breakpoint", {"action": "add", "var_name": "da"}),
                             ("data-breakpoint", {"action": "remove", "breakpoint-id": r.choice(NOT_U64)})])
        p = {"use_hex_str": False, "x": r.choice([None, [], {}, 1.5, 2**64])}
        return "option-change", p

    def token(self):
        r = self.r
        return r.choice(["t", "", "0", "ü", "\"quoted\"", "\\", "\n\t", "x" * 300, "\U0001f600", "null", "{0}"]) + str(r.randrange(1 << 30))

    def text(self):
        """a text that is not a request at all"""
        r = self.r
        k = r.randrange(9)
        if k == 0:
            return r.choice(["", " ", "{", "}", "[", "null", "true", "42", "-", "\"", "\"x\"", "[]", "{}", "[{}]", "nul", "{\"a\":}", "{'a': 1}", "\ufeff{}",
                             "//", "{} {}", "NaN", "1e999", "-1e-999", "\\", "\u2028"])
        if k == 1:
            return json.dumps(r.choice([{"request": False, "type": "command", "payload": {"command": "continue"}}, {"request": "true", "type": "command"},
                                        {"request": 1}, {"type": "command", "payload": {"command": "continue"}}, {"request": True},
                                        {"request": True, "type": 5, "payload": {}}, {"request": True, "type": "command"},
                                        {"request": True, "payload": {"command": "continue"}}, {"request": None}, [{"request": True}],
                                        {"request": False, "type": "breakpoint", "status": "success", "payload": {}}]))
        if k == 2:
            return "".join(chr(r.choice([r.randrange(1, 128), r.randrange(32, 0x2000)])) for _ in range(r.randrange(1, 300)))
        if k == 3:
            # a valid request, cut or with a byte changed so that it is no JSON any more
            t, p = self.valid()
            s = json.dumps({"request": True, "type": t, "payload": p, "token": "never"})
            return s[:r.randrange(1, len(s) - 1)]
        if k == 4:
            return r.choice(["[", "{\"a\":"]) * r.choice([10, 1000, 20000, 300000])
        if k == 5:
            n = r.choice([10, 1000, 5000, 200000])
            return '{"request": true, "type": "command", "payload": ' + "[" * n + "]" * n + "}"
        if k == 6:
            return json.dumps({"request": True, "type": "x" * r.choice([10, 100000]), "payload": {}})
        if k == 7:
            return '{"request": true, "request": false, "type": "command", "payload": {"command": "nothing"}}'
        return " " * r.choice([1, 5000]) + "{\"request\": tru"
