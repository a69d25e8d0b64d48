"""C21: a symbol table behind a network connection answers like the same table loaded locally"""
import json, random, socket, threading, time, zlib
import c03
import c15
import design as D
import e2e
import scen as S
import tablemodel as T
from ctx import *
from host import Hang, Violation
from peer import Peer
from probe import Probe, describe

EMPTY = {"bps1": [], "bps2": [], "bps3": [], "bp": None, "inst_name": None, "inst_name_bp": None, "inst_id": None, "inst_id_bp": None, "files": [],
         "inst_names": [], "ann": [], "arrays": [], "ctx": [], "gen": [], "static": {}, "order": [], "assigned": []}


class Served:
    """answers requests from a table loaded in a probe"""

    def __init__(self, rng, p, t):
        self.rng, self.p, self.t = rng, p, t
        self.wrong = []
        self.lock = threading.Lock()

    def q(self, q, **kw):
        with self.lock:
            return self.p.ask("table", q=q, t=self.t, **kw)["r"]

    def bp(self, b):
        d = {"id": b["id"], "instance_id": b["instance_id"], "filename": b["filename"], "line_num": b["line"], "column_num": b["column"],
             "condition": b["condition"], "trigger": b["trigger"]}
        return self.shuffle(d)

    def shuffle(self, d):
        k = list(d)
        self.rng.shuffle(k)
        return {x: d[x] for x in k}

    def answer(self, r):
        """the result member for a request, or None if there is none"""
        if not isinstance(r, dict) or r.get("request") is not True or r.get("type") != "symbol" or not isinstance(r.get("payload"), dict):
            self.wrong.append(r)
            return None
        p = dict(r["payload"])
        t = p.pop("type", None)
        want = {"get_breakpoints": {"filename", "line_num", "col_num"}, "get_breakpoint": {"breakpoint_id"}, "get_instance_name": {"instance_id"},
                "get_context_variables": {"breakpoint_id"}, "get_generator_variables": {"instance_id"}, "get_annotation_values": {"name"},
                "get_assigned_breakpoints": {"name", "breakpoint_id"}}.get(t, set())
        if t == "get_instance_id":
            want = {"instance_name"} if "instance_name" in p else {"breakpoint_id"}
        if set(p) != want:
            self.wrong.append(r)
            return None
        rng = self.rng
        if t == "get_breakpoint":
            b = self.q("bp", id=p["breakpoint_id"])
            return b and self.bp(b)
        if t == "get_breakpoints":
            f, l, c = p["filename"], p["line_num"], p["col_num"]
            return [self.bp(b) for b in (self.q("bps3", file=f, line=l, col=c) if c else self.q("bps2", file=f, line=l) if l else self.q("bps1", file=f))]
        if t == "get_instance_name":
            return self.q("inst_name", id=p["instance_id"])
        if t == "get_instance_id":
            return self.q("inst_id", name=p["instance_name"]) if "instance_name" in p else self.q("inst_id_bp", id=p["breakpoint_id"])
        if t == "get_context_variables":
            return [[self.shuffle({"name": v["name"], "breakpoint_id": p["breakpoint_id"], "variable_id": i}),
                     self.shuffle({"id": i, "value": v["value"], "is_rtl": v["rtl"]})] for i, v in enumerate(self.q("ctx", id=p["breakpoint_id"]))]
        if t == "get_generator_variables":
            return [[self.shuffle({"name": v["name"], "instance_id": p["instance_id"], "variable_id": i, **({"annotation": "x"} if rng.random() < 0.3 else {})}),
                     self.shuffle({"id": i, "value": v["value"], "is_rtl": v["rtl"]})] for i, v in enumerate(self.q("gen", id=p["instance_id"]))]
        if t == "get_assigned_breakpoints":
            return [self.shuffle({rng.choice(["id", "breakpoint_id"]): i, rng.choice(["var", "value", "var_name", "variable_name"]): v,
                                  **({rng.choice(["condition", "cond"]): c} if c or rng.random() < 0.5 else {})})
                    for i, v, c in self.q("assigned", id=p["breakpoint_id"], name=p["name"])]
        q = {"get_instance_names": "inst_names", "get_all_array_names": "arrays", "get_filenames": "files", "get_execution_bp_orders": "order"}.get(t)
        if q:
            return self.q(q)
        if t == "get_annotation_values":
            return self.q("ann", name=p["name"])
        self.wrong.append(r)
        return None

    def text(self, r):
        res = self.answer(r)
        d = {"request": False, "type": "symbol", "status": "success"} if self.rng.random() < 0.5 else {}
        if res is not None:
            d["result"] = res
        if self.rng.random() < 0.1:
            d["more"] = ['}"]{', {"\\": None}]
        d = self.shuffle(d)
        return json.dumps(d, ensure_ascii=self.rng.random() < 0.5, indent=self.rng.choice([None, None, None, 1]))


def normal(q, r):
    if q in ("ctx", "gen"):
        return [{k: v[k] for k in ("name", "value", "rtl")} for v in r]
    return r


def queries(rng, t, deep):
    out = []
    for x in c15.battery(rng, t):
        if x["q"] in ("delayed", "symval") or x["q"] in ("bps2", "bps3") and not x.get("line"):
            continue
        out.append(x)
    return out if deep else rng.sample(out, min(len(out), 40))


GARBAGE = ["", " ", "x", "null", "[]", "1", '"x"', "{}", '{"result": null}', '{"result": {}}', '{"result": [null]}', '{"result": [[]]}', '{"result": "\\u0000"}',
           '{"result": -1}', '{"result": 1.5}', '{"result": [{}]}', '{"result": [[{},{}]]}', '{"result": [[1,2]]}', '{"result": 1e99}', '{"res": 1}', '{"result": true}',
           '{"request":false,"type":"symbol","status":"error","payload":{"reason":"no"}}', '{"result": [-1, 99999999999999999999999]}', "}", "]", '{"result": [[[[]]]]}']
EMPTY_ALWAYS = {"", " ", "x", "null", "[]", "1", '"x"', "{}", '{"result": null}', '{"res": 1}', '{"result": true}', "}", "]", '{"result": 1.5}', '{"result": [null]}',
                '{"request":false,"type":"symbol","status":"error","payload":{"reason":"no"}}'}


def mutated(rng, text):
    try:
        v = json.loads(text)
    except ValueError:
        return text
    m = c15.mutate(rng, {"table": v})
    return json.dumps(m.get("table", v))


def work(case, cfg):
    rng = random.Random(case)
    out = {"queries": 0, "faults": 0, "refused_connections": 0, "after_loss": 0, "keys": [], "sample": None}
    local = Probe(cfg["exe"], timeout=40)
    p = Probe(cfg["exe"], timeout=20, leaks=rng.random() < 0.2)
    peer = None
    try:
        for i in range(cfg["n"]):
            table = T.Gen(rng, max_insts=10, max_mods=4, delay=False, **({"files": 3} if 0 else {})).table()
            lt = local.ask("table", q="parse", content_hex=json.dumps(table).encode().hex())["t"]
            sv = Served(rng, local, lt)
            kind = rng.choice(["ws", "tcp"])
            mode = rng.choice(["good", "good", "garbage", "garbage", "loss", "refuse"])
            st = {"fault": None, "gone": False}

            def answer(r, text):
                a = sv.text(r)
                pieces = rng.choice([1, 1, 1, 2, 3, 7])
                f, st["fault"] = st["fault"], None
                if f is None:
                    return [("send", a, pieces)]
                if f == "garbage":
                    return [("send", st["text"], 1)]
                if f == "mutated":
                    m = mutated(rng, a)
                    # without framing, only an object has an end
                    return [("send", m if kind == "ws" or m.startswith("{") else "{}", pieces)]
                st["gone"] = True
                if f == "partial":
                    b = a.encode()[:rng.randrange(1, max(2, len(a) - 1))]
                    return [("bytes", b if kind == "tcp" else Peer.frame(1, a.encode())[:2 + len(b)]), rng.choice(["shutdown", "abort"])]
                if f == "answered":
                    # it closes once it has answered: that answer still counts
                    st["answered"] = True
                    return [("send", a, 1), rng.choice(["close", "shutdown"])]
                return [f]

            on_open = None
            if mode == "refuse":
                k = rng.randrange(5)
                on_open = lambda: [["abort"], ["shutdown"], [("bytes", b"HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n"), "shutdown"],  # noqa: E731
                                   [("bytes", bytes(rng.randrange(256) for _ in range(50))), "shutdown"], ["close"]][k]
            peer = Peer(kind, answer, on_open)
            if mode == "refuse" and rng.random() < 0.5:
                # nobody there
                s = socket.socket()
                s.bind(("127.0.0.1", 0))
                port = s.getsockname()[1]
                s.close()
                uri = rng.choice([f"{kind}://127.0.0.1:{port}", f"{kind}://", f"{kind}://127.0.0.1:x", f"{kind}://127.0.0.1:99999", f"{kind}:///", f"{kind}://:",
                                  f"{kind}://[", f"{kind}://127.0.0.1:-1", f"{kind}://nosuch.invalid:{port}"])
            else:
                uri = peer.uri if rng.random() < 0.7 else f"{kind}://localhost:{peer.port}"
            what = f"{mode} {uri}"
            r = p.ask("table", q="load", file=uri)
            if mode == "refuse":
                out["refused_connections"] += 1
                if kind == "ws" or peer.uri.split(":")[-1] != uri.split(":")[-1]:
                    if not r["null"] and not r["bad"]:
                        raise Violation(f"a connection that failed gives a symbol table: {uri}")
                elif not r["null"]:
                    st["gone"] = True
            elif r["null"] or r["bad"]:
                raise Violation(f"a served symbol table is not reached at {uri}: {r}")
            if not r["null"]:
                rt = r["t"]
                for x in queries(rng, rt, mode == "good"):
                    q = x["q"]
                    was_gone = st["gone"]
                    st["answered"] = False
                    st["fault"] = None
                    if mode == "garbage" and rng.random() < 0.5 and q in EMPTY:
                        st["fault"] = rng.choice(["garbage", "mutated"])
                        st["text"] = rng.choice(GARBAGE if kind == "ws" else [g for g in GARBAGE if g.strip()])
                        if rng.random() < 0.03:
                            k = rng.choice([200, 200, 100000])
                            st["text"] = '{"result": ' + "[" * k + "]" * k + "}"
                    elif mode == "loss" and rng.random() < 0.06:
                        st["fault"] = rng.choice(["abort", "close", "shutdown", "partial", "answered"])
                    f = st["fault"]
                    n = len(peer.requests)
                    got = normal(q, p.ask(**x)["r"])
                    out["queries"] += 1
                    if sv.wrong:
                        raise Violation(f"the query {describe(x)} makes the request {sv.wrong[0]}")
                    if peer.errors:
                        raise RuntimeError(peer.errors)
                    if was_gone or f in ("abort", "close", "shutdown", "partial"):
                        out["after_loss"] += 1
                        if q in EMPTY and got != EMPTY[q]:
                            raise Violation(f"{describe(x)} to a peer that is gone is answered with {str(got)[:300]}")
                        continue
                    if f in ("garbage", "mutated") and len(peer.requests) > n:
                        out["faults"] += 1
                        if f == "garbage" and st["text"] in EMPTY_ALWAYS and got != EMPTY[q]:
                            raise Violation(f"{describe(x)} is answered with {st['text']!r} by the peer and returns {str(got)[:300]}")
                        continue
                    want = normal(q, sv.q(**{k: v for k, v in x.items() if k not in ("op", "t")}))
                    if got != want:
                        raise Violation(f"{describe(x)} returns {str(got)[:500]} over {kind} and {str(want)[:500]} locally")
                    out["keys"].append(zlib.crc32(repr((x, want)).encode()))
                p.ask("table", q="free", t=rt)
            peer.close()
            out["sample"] = {"mode": mode, "uri": uri, "request": peer.requests[-1:] if peer.requests else None}
        p.end()
    except (Violation, Hang) as e:
        e.detail = f"{what}\n{e.detail or ''}"
        raise
    finally:
        if peer:
            peer.close()
        p.kill()
        local.kill()
    return out


def live(case, cfg):
    """a whole session on a served table"""
    rng = random.Random(case)
    T_ = e2e.json_table(rng, cfg)
    if not T_.order or T_.flat:
        return None
    s = S.Session(cfg["exe"], T_, rng, n_occ=rng.choice([1, 1, 2]), rich=False)
    pr = e2e.probe(cfg)
    t = pr.ask("table", q="parse", content_hex=json.dumps(T_.json).encode().hex())["t"]
    sv = Served(rng, pr, t)
    peer = Peer(rng.choice(["ws", "tcp"]), lambda r, text: [("send", sv.text(r), rng.choice([1, 1, 3]))])
    try:
        s.table_uri = peer.uri
        s.start()
        for _ in range(rng.randrange(1, 6)):
            e2e.random_insert(s, rng)
        lose = rng.random() < 0.3
        n = e2e.drive(s, rng, rng.randrange(3, 12), on_stop=lambda n: e2e.random_edit(s, rng))
        if sv.wrong or peer.errors:
            raise S.Bad("C21", f"a request of the debugger: {sv.wrong[:1]} {peer.errors[:1]}")
        if lose:
            # the table is gone: requests are answered all the same
            peer.close()
            for tp, pl in (("bp-location", {"filename": "x.py"}), ("breakpoint", {"filename": "x.py", "line_num": 1, "action": "add"}),
                           ("debugger-info", {"command": "filename"}), ("debugger-info", {"command": "status"})):
                s.c.request(tp, pl)
            s.stat("lost_peer")
        s.host.finish()
        return {"key": f"{T_.order[:20]}/{s.reports}/{n}", "reports": s.reports, "stats": s.stats, "edges": len(s.plan)}
    except S.Bad as e:
        raise Violation(f"debugging with a served table: {e.what}", e.detail)
    finally:
        s.close()
        peer.close()
        pr.ask("table", q="free", t=t)


def run(ctx):
    bins = ctx.build("asan", "probe", "simhost")
    ctx.rule = ("random tables served over WebSocket and TCP by an independent peer, answers cut into pieces and in any member order; every query is compared with the "
                "same query on the same table loaded locally; peers that answer garbage, close, vanish, refuse; and debugging sessions on a served table against "
                "the stop model. non-trivial: a distinct (query, answer) or session")
    only = getattr(ctx, "only", None)
    if not only or "live" not in only["case"]:
        for case, r in ctx.pool(work, [f"C21/{ctx.seed}/{i}" for i in range(ctx.n(32, 300))], {"exe": bins["probe"], "n": ctx.n(10, 30)}):
            ctx.evaluations += r["queries"]
            ctx.nontrivial.update(r["keys"])
            for k in ("queries", "faults", "refused_connections", "after_loss"):
                ctx.count(k, r[k])
            if len(ctx.samples) < 4:
                ctx.samples.append(r["sample"])
    if (not only or "live" in only["case"]) and not ctx.violations:
        for case, r in ctx.pool(live, [f"C21/live/{ctx.seed}/{i}" for i in range(ctx.n(40, 400))], {"exe": bins["simhost"], "probe": bins["probe"], "prop": "C21"}):
            if r:
                ctx.case(r["key"])
                ctx.count("live_sessions")
                ctx.count("live_reports", r["reports"])
    return ctx.finish(1000, 100)
