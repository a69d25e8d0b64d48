"""C32: a symbol table served by a subclass of the Python SymbolTableProvider answers like the same table loaded locally"""
import json, random, threading, time, zlib
import c15
import c21
import e2e
import pyclient
import scen as S
import tablemodel as T
from ctx import *
from host import Hang, Violation, free_port
from probe import Probe, describe

# the Python interface has no function for those
NOT_SERVED = {"files", "assigned"}


def provider(mod, rng, p, t, port, calls):
    """the interface implemented on top of a table loaded in a probe"""
    lock = threading.Lock()

    def q(q, **kw):
        with lock:
            calls.append(q)
            return p.ask("table", q=q, t=t, **kw)["r"]

    def bp(b):
        return b and mod.BreakpointSymbol(b["id"], b["instance_id"], b["filename"], b["line"], b["column"], b["condition"], b["trigger"])

    class Provider(mod.SymbolTableProvider):
        def get_breakpoint(self, breakpoint_id):
            return bp(q("bp", id=breakpoint_id))

        def get_breakpoints(self, filename, line_num, column_num):
            l = (q("bps3", file=filename, line=line_num, col=column_num) if column_num else
                 q("bps2", file=filename, line=line_num) if line_num else q("bps1", file=filename))
            return [bp(b) for b in l]

        def get_instance_name(self, instance_id):
            return q("inst_name", id=instance_id)

        def get_instance_id_by_name(self, instance_name):
            return q("inst_id", name=instance_name)

        def get_instance_id_by_bp(self, breakpoint_id):
            return q("inst_id_bp", id=breakpoint_id)

        def get_context_variable(self, breakpoint_id):
            return [(mod.ContextVariableSymbol(v["name"], breakpoint_id, i), mod.VariableSymbol(i, v["value"], v["rtl"]))
                    for i, v in enumerate(q("ctx", id=breakpoint_id))]

        def get_generator_variable(self, instance_id):
            return [(mod.GeneratorVariableSymbol(v["name"], instance_id, i, rng.choice(["", "x", None])), mod.VariableSymbol(i, v["value"], v["rtl"]))
                    for i, v in enumerate(q("gen", id=instance_id))]

        def get_instance_names(self):
            return q("inst_names")

        def get_annotation_values(self, name):
            return q("ann", name=name)

        def get_all_array_names(self):
            return q("arrays")

        def execution_bp_orders(self):
            return q("order")
    host = rng.choice(["127.0.0.1", "localhost"])
    return Provider(host, port) if rng.random() < 0.5 else Provider(port=port)


class Serving:
    def __init__(self, rng, p, t):
        mod = pyclient.load("symbol")
        self.port = free_port()
        self.calls = []
        self.end = None
        pr = self.pr = provider(mod, rng, p, t, self.port, self.calls)

        def run():
            import asyncio
            asyncio.set_event_loop(pr.loop)
            try:
                pr.run(True)
            except BaseException as e:   # stopped, or the defect looked for
                self.end = e
            pyclient.wind_up(pr.loop)
        self.t = threading.Thread(target=run, daemon=True)
        self.t.start()
        self.uri = f"ws://127.0.0.1:{self.port}"
        import socket
        for _ in range(500):
            if self.end is not None:
                raise Violation(f"the provider does not serve: {self.end!r}")
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                time.sleep(0.01)
        raise Violation("the provider does not listen")

    def stop(self):
        try:
            self.pr.loop.call_soon_threadsafe(self.pr.stop)
        except RuntimeError:
            pass
        self.t.join(5)


def work(case, cfg):
    rng = random.Random(case)
    out = {"queries": 0, "keys": [], "sample": None}
    local = Probe(cfg["exe"], timeout=40)
    back = Probe(cfg["exe"], timeout=40)
    p = Probe(cfg["exe"], timeout=20)
    sv = None
    what = ""
    try:
        for i in range(cfg["n"]):
            table = T.Gen(rng, max_insts=10, max_mods=4, delay=False).table()
            text = json.dumps(table).encode().hex()
            lt = local.ask("table", q="parse", content_hex=text)["t"]
            bt = back.ask("table", q="parse", content_hex=text)["t"]
            sv = Serving(rng, back, bt)
            what = json.dumps(table)[:3000]
            r = p.ask("table", q="load", file=sv.uri)
            if r["null"] or r["bad"]:
                raise Violation(f"a table served by the Python provider is not reached: {r}")
            rt = r["t"]
            for x in c21.queries(rng, rt, rng.random() < 0.6):
                q = x["q"]
                if q in NOT_SERVED:
                    continue
                got = c21.normal(q, p.ask(**x)["r"])
                want = c21.normal(q, local.ask("table", **{**{k: v for k, v in x.items() if k != "op"}, "t": lt})["r"])
                out["queries"] += 1
                if got != want:
                    raise Violation(f"{describe(x)} returns {str(got)[:500]} from the Python provider and {str(want)[:500]} locally")
                out["keys"].append(zlib.crc32(repr((x, want)).encode()))
            if rng.random() < 0.5:
                # what is not an answerable message is answered with an empty object, and the connection stays
                lp = pyclient.Loop()
                try:
                    import websockets

                    async def odd():
                        async with websockets.connect(sv.uri) as ws:
                            for m in rng.sample(["", "{", "x", "]", "{\"a\":"], 3):
                                await ws.send(m)
                                a = await ws.recv()
                                if json.loads(a) != {}:
                                    raise Violation(f"the Python provider answers {m!r} with {a!r}")
                            await ws.send(json.dumps({"request": True, "type": "symbol", "payload": {"type": "get_instance_names"}}))
                            a = json.loads(await ws.recv())
                            w = local.ask("table", q="inst_names", t=lt)["r"]
                            if a.get("result") != w:
                                raise Violation(f"the Python provider answers {a!r} after a message that is none")
                    lp.call(odd(), 30)
                finally:
                    lp.stop()
            out["sample"] = {"table": what[:500], "calls": sv.calls[-10:]}
            p.ask("table", q="free", t=rt)
            sv.stop()
            sv = None
        p.end()
    except (Violation, Hang) as e:
        e.detail = f"{what}\n{e.detail or ''}"
        raise
    finally:
        if sv:
            sv.stop()
        p.kill()
        local.kill()
        back.kill()
    return out


def live(case, cfg):
    """a whole session on a table served from Python"""
    rng = random.Random(case)
    T_ = e2e.json_table(rng, cfg)
    if not T_.order or T_.flat:
        return None
    s = S.Session(cfg["exe"], T_, rng, n_occ=rng.choice([1, 1, 2]), rich=False)
    pr = Probe(cfg["probe"], timeout=40)
    t = pr.ask("table", q="parse", content_hex=json.dumps(T_.json).encode().hex())["t"]
    sv = None
    try:
        sv = Serving(rng, pr, t)
        s.table_uri = sv.uri
        s.start()
        for _ in range(rng.randrange(1, 6)):
            e2e.random_insert(s, rng)
        n = e2e.drive(s, rng, rng.randrange(3, 12), on_stop=lambda n: e2e.random_edit(s, rng))
        s.host.finish()
        return {"key": f"{T_.order[:20]}/{s.reports}/{n}", "reports": s.reports, "stats": s.stats, "edges": len(s.plan)}
    except S.Bad as e:
        raise Violation(f"debugging with a table served from Python: {e.what}", e.detail)
    finally:
        s.close()
        if sv:
            sv.stop()
        pr.kill()


def run(ctx):
    bins = ctx.build("asan", "probe", "simhost")
    ctx.rule = ("random tables served over WebSocket by a subclass of the repository's Python SymbolTableProvider; every query through the debugger's network provider is "
                "compared with the same query on the same table loaded locally, and debugging sessions on a served table run against the stop model. "
                "non-trivial: a distinct (query, answer) or session")
    only = getattr(ctx, "only", None)
    if not only or "live" not in only["case"]:
        for case, r in ctx.pool(work, [f"C32/{ctx.seed}/{i}" for i in range(ctx.n(32, 300))], {"exe": bins["probe"], "n": ctx.n(5, 15)}):
            ctx.evaluations += r["queries"]
            ctx.nontrivial.update(r["keys"])
            ctx.count("queries", r["queries"])
            if len(ctx.samples) < 4:
                ctx.samples.append(r["sample"])
    if (not only or "live" in only["case"]) and not ctx.violations:
        for case, r in ctx.pool(live, [f"C32/live/{ctx.seed}/{i}" for i in range(ctx.n(40, 400))], {"exe": bins["simhost"], "probe": bins["probe"], "prop": "C32"}):
            if r:
                ctx.case(r["key"])
                ctx.count("live_sessions")
                ctx.count("live_reports", r["reports"])
    return ctx.finish(1000, 100)
