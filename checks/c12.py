"""C12: requests and responses on the wire: parsed fields equal the sent ones, responses parse back to what was put in"""
import json, random, zlib
from probe import Probe
from host import Violation

ALPHA = ['a', 'B', '_', '0', '9', '.', '[', ']', '/', '\\', '"', "'", ' ', '\t', '\n', '\r', '\x01', '\x1f', '\x7f', '{', '}', ',', ':',
         'é', 'ß', '日', '\u2028', '\ufeff', '😀', '\U0010ffff', '&&', '||', '==', '%s', '{0}', '$', '</', '\\u0041', '\\n']
NAMES = ["a", "top.dut", "/tmp/test.py", "C:\\x\\y", "a[0].b", "a == 1 && b", "add", "remove", "true", "1", ""]


def rstr(rng, empty=True):
    if rng.random() < 0.3:
        s = rng.choice(NAMES)
    else:
        s = "".join(rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20, 120])))
    return s or ("" if empty else "x")


def rnum(rng, bits=32, neg=False):
    m = 1 << bits
    v = rng.choice([0, 1, 2, 7, 42, 255, 65535, m // 2 - 1, m // 2, m - 1, rng.randrange(m)])
    if neg:
        v = rng.choice([v - m // 2, 0, -1, 1, -m // 2, m // 2 - 1])
    return v


# ---------------------------------------------------------------- an encoder of its own, with every freedom JSON gives
def enc(rng, v):
    sp = (lambda: rng.choice(["", "", " ", "\n", "\t ", "\r\n"])) if rng.random() < 0.5 else (lambda: "")

    def s(x):
        out = []
        for c in x:
            o = ord(c)
            if c in '"\\':
                out.append("\\" + c if rng.random() < 0.9 else "\\u%04x" % o)
            elif o < 32:
                short = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}.get(c)
                out.append(short if short and rng.random() < 0.8 else "\\u%04X" % o)
            elif c == "/" and rng.random() < 0.1:
                out.append("\\/")
            elif rng.random() < 0.05 or (o > 126 and rng.random() < 0.4):
                if o > 0xffff:
                    o -= 0x10000
                    out.append("\\u%04x\\u%04x" % (0xd800 + (o >> 10), 0xdc00 + (o & 1023)))
                else:
                    out.append("\\u%04x" % o)
            else:
                out.append(c)
        return '"' + "".join(out) + '"'

    def go(x):
        if isinstance(x, dict):
            it = list(x.items())
            rng.shuffle(it)
            return "{" + sp() + ("," + sp()).join(s(k) + sp() + ":" + sp() + go(w) + sp() for k, w in it) + "}"
        if isinstance(x, list):
            return "[" + sp() + ("," + sp()).join(go(w) for w in x) + sp() + "]"
        if isinstance(x, str):
            return s(x)
        return json.dumps(x)

    return sp() + go(v) + sp()


def smap(rng):
    return {rstr(rng, False): rstr(rng) for _ in range(rng.randrange(0, 5))}


# field kinds: s string, u32, u64, i64, m map; per request: (name, kind, mandatory)
def req_spec(rng):
    t = rng.choice(["breakpoint", "breakpoint", "breakpoint-id", "connection", "bp-location", "command", "debugger-info", "path-mapping",
                    "evaluation", "option-change", "monitor", "monitor", "set-value", "data-breakpoint", "data-breakpoint"])
    enums = {}
    if t == "breakpoint":
        act = rng.choice(["add", "remove"])
        f = [("filename", "s", 1), ("line_num", "u32", act == "add"), ("column_num", "u32", 0), ("condition", "s", 0)]
        enums = {"action": act}
        expect = {"column_num": 0, "condition": "", "line_num": 0, "id": 0}
    elif t == "breakpoint-id":
        f = [("id", "u32", 1), ("condition", "s", 0)]
        enums = {"action": rng.choice(["add", "remove"])}
        expect = {"condition": ""}
    elif t == "connection":
        f = [("db_filename", "s", 1), ("path-mapping", "m", 0)]
        expect = {"path-mapping": {}}
    elif t == "bp-location":
        f = [("filename", "s", 1), ("line_num", "u32", 0), ("column_num", "u32", 0)]
        expect = {"line_num": None, "column_num": None}
    elif t == "command":
        c = rng.choice(["continue", "step_over", "step_back", "stop", "reverse_continue", "jump"])
        f = [("time", "u64", 1)] if c == "jump" else []
        enums = {"command": c}
        expect = {}
    elif t == "debugger-info":
        f = []
        enums = {"command": rng.choice(["breakpoints", "status", "options", "design", "filename"])}
        expect = {}
    elif t == "path-mapping":
        f = [("path-mapping", "m", 1)]
        expect = {}
    elif t == "evaluation":
        f = [("expression", "s", 1), ("breakpoint_id", "u32", 0), ("instance_id", "u32", 0), ("namespace_id", "u32", 0)]
        expect = {"breakpoint_id": None, "instance_id": None, "namespace_id": None}
    elif t == "option-change":
        return t, [], {}, {}
    elif t == "monitor":
        act = rng.choice(["add", "add", "remove"])
        enums = {"action_type": act}
        if act == "add":
            enums["monitor_type"] = rng.choice(["breakpoint", "clock_edge", "changed"])
            f = [("var_name", "s", 1), ("breakpoint_id", "u32", 0), ("instance_id", "u32", 0), ("namespace_id", "u32", 0)]
            expect = {"breakpoint_id": None, "instance_id": None, "namespace_id": None}
        else:
            f = [("track_id", "u64", 1), ("namespace_id", "u32", 0)]
            expect = {"namespace_id": None}
    elif t == "set-value":
        f = [("var_name", "s", 1), ("value", "i64", 1), ("breakpoint_id", "u32", 0), ("instance_id", "u32", 0), ("namespace_id", "u32", 0)]
        expect = {"breakpoint_id": None, "instance_id": None, "namespace_id": None}
    else:
        act = rng.choice(["add", "info", "remove", "clear"])
        enums = {"action": act}
        f = [("namespace_id", "u32", 0)]
        expect = {"namespace_id": None}
        if act != "clear":
            f.append(("breakpoint-id", "u32", 1))
        if act in ("add", "info"):
            f += [("var_name", "s", 1), ("condition", "s", 0)]
            expect["condition"] = ""
    return t, f, enums, expect


def rval(rng, kind):
    if kind == "s":
        return rstr(rng)
    if kind == "m":
        return smap(rng)
    return rnum(rng, 32) if kind == "u32" else rnum(rng, 64) if kind == "u64" else rnum(rng, 64, True)


def bad_for(rng, kind):
    """values no reading of the field's documented type admits"""
    other = {"s": [1, True, None, ["x"], {"x": "y"}, 1.5], "m": ["x", 1, ["a"], None, {"a": 1}, {"a": ["b"]}, True],
             "u32": ["1", -1, True, None, [1], {"x": 1}, "x", 1.5, -2**63, 2**64 + 1, 1e300],
             "u64": ["1", -1, True, None, [1], {"x": 1}, "x", 1.5, -2**63, 2**70],
             "i64": ["1", True, None, [1], {"x": 1}, "x", 1.5, 2**63, -2**63 - 1, 2**80]}[kind]
    return rng.choice(other)


def make_request(rng):
    t, f, enums, expect = req_spec(rng)
    payload, expect = dict(enums), {**expect, **enums}
    for name, kind, must in f:
        if must or rng.random() < 0.6:
            expect[name] = payload[name] = rval(rng, kind)
    if t == "option-change":
        o = {}
        for _ in range(rng.randrange(0, 5)):
            k = rng.choice(["single_thread_mode", "log_enabled", "use_hex_str", "perf_count", rstr(rng, False)])
            o[k] = rng.choice([True, False, rnum(rng, 64, True), rstr(rng)])
        payload = o
        expect = {"options": dict(o)}
    msg = {"request": True, "type": t, "payload": payload}
    tok = rstr(rng) if rng.random() < 0.7 else None
    if tok is not None:
        msg["token"] = tok
    bad = None
    r = rng.random()
    mand = [(n, k) for n, k, m in f if m] + [(n, "s") for n in enums] + [("payload", "p")]
    if r < 0.30 and t != "option-change" or r < 0.05:
        n, k = rng.choice(mand)
        how = rng.randrange(3)
        tgt = msg if n == "payload" else payload
        if how == 0:
            del tgt[n]
            bad = f"missing {n}"
        elif how == 1:
            tgt[n] = rng.choice([1, "x", None, [1], [], True, 1.5]) if k == "p" else bad_for(rng, k)
            bad = f"ill-typed {n}"
        elif n in enums:
            v = rng.choice(["", enums[n] + " ", enums[n].upper(), "ADD", "unknown", rstr(rng)])
            if v not in ("add", "remove", "info", "clear", "continue", "step_over", "step_back", "stop", "reverse_continue", "jump",
                         "breakpoints", "status", "options", "design", "filename", "breakpoint", "clock_edge", "changed"):
                tgt[n] = v
                bad = f"unknown {n}"
    elif r < 0.36:
        how = rng.randrange(4)
        if how == 0:
            del msg["request"]
            bad = "no request"
        elif how == 1:
            msg["request"] = rng.choice([False, 1, "true", None])
            bad = "request not true"
        elif how == 2:
            msg["type"] = rng.choice([1, None, True, ["breakpoint"], "", "Breakpoint", "nothing", rstr(rng, False) + "!"])
            bad = "bad type"
        else:
            del msg["type"]
            bad = "no type"
    elif r < 0.40 and t == "option-change":
        payload[rstr(rng, False)] = rng.choice([None, [1], {"a": 1}, 1.5])
        bad = "ill-typed option"
    elif r < 0.5 and t != "option-change":
        extra = rng.choice(["foo", "request", "", "日"])
        if extra not in payload:
            payload[extra] = rng.choice([1, "x", None, [1, {"a": 2}]])
    text = enc(rng, msg)
    if bad is None:
        expect["type"] = t
    return text, expect, bad, tok


def corrupt(rng, text):
    """turns a message into something that is no JSON text or no object"""
    how = rng.randrange(5)
    if how == 0:
        t = text.strip()
        k = rng.randrange(0, len(t))
        return t[:k]
    if how == 1:
        return rng.choice(["", " ", "null", "1", '"x"', "[]", "[1,2]", "true", "-", "{", "}", "[", '"', "{]", '{"a"}', "nul", "{,}", "1 2"])
    if how == 2:
        return text + rng.choice(["}", "x", '"', "{}", "1"])
    if how == 3:
        return "[" + text + "]"
    return text.strip()[1:]


def hexitem(op, text, **kw):
    return {"op": op, "text_hex": text.encode("utf-8", "surrogatepass").hex(), **kw}


def judge_req(text, expect, bad, tok, r):
    if bad:
        if not r["error"]:
            raise Violation(f"request with {bad} is accepted: {text!r}")
        if not r["has_reason"]:
            raise Violation(f"request with {bad} is refused without a reason: {text!r}")
        if tok and r["token"] != tok:
            raise Violation(f"token {tok!r} of a refused request is read as {r['token']!r}: {text!r}")
        return
    if r["error"]:
        raise Violation(f"well-formed request is refused: {text!r}")
    if r["token"] != (tok or ""):
        raise Violation(f"token {tok!r} is read as {r['token']!r}: {text!r}")
    for k, v in expect.items():
        if r.get(k) != v or isinstance(r.get(k), bool) != isinstance(v, bool):
            raise Violation(f"field {k} of {text!r} is read as {r.get(k)!r} instead of {v!r}")


# ---------------------------------------------------------------- responses
def tok_equiv(n):
    out, cur = [], ""
    for c in n + ".":
        if c in ".[]":
            if cur:
                out.append(cur.lstrip("0") if cur.isdigit() and cur.isascii() else cur)
            cur = ""
        else:
            cur += c
    return tuple(out)


def make_response(rng):
    kind = rng.choice(["generic", "generic", "generic_req", "location", "breakpoint", "breakpoint", "info_status", "info_filenames",
                       "info_options", "info_design", "info_breakpoints", "evaluation", "monitor"])
    tok = rstr(rng) if rng.random() < 0.6 else ""
    item = {"op": "response", "kind": kind, "token": tok, "pretty": rng.random() < 0.4}
    want = {"request": False, "status": "success"}
    if tok:
        want["token"] = tok
    if kind == "generic":
        ok = rng.random() < 0.5
        req = rng.choice(["error", "breakpoint", "breakpoint-id", "connection", "bp-location", "command", "debugger-info", "path-mapping",
                          "evaluation", "option-change", "monitor", "set-value", "symbol", "data-breakpoint"])
        vals = {}
        for _ in range(rng.randrange(0, 4)):
            k = rstr(rng, False)
            if k not in ("request-type", "reason"):
                vals[k] = rng.choice([True, False, rnum(rng, 64, True), rstr(rng)])
        item.update(ok=ok, req=req, reason=rstr(rng), values=vals)
        want.update(type="generic", status="success" if ok else "error", payload={"request-type": req, **vals})
        if not ok:
            want["payload"]["reason"] = item["reason"]
    elif kind == "generic_req":
        text, expect, bad, rtok = make_request(rng)
        ok = rng.random() < 0.5
        item.update(ok=ok, reason=rstr(rng), request=text, token="")
        want.pop("token", None)
        if rtok:
            want["token"] = rtok
        want.update(type="generic", status="success" if ok else "error", payload={})
        if not bad:
            want["payload"]["request-type"] = expect["type"]
        if not ok:
            want["payload"]["reason"] = item["reason"]
    elif kind == "location":
        bps = [{"id": rnum(rng), "filename": rstr(rng), "line_num": rnum(rng), "column_num": rnum(rng)} for _ in range(rng.randrange(0, 6))]
        item["bps"] = bps
        want.update(type="bp-location", payload=bps)
    elif kind == "breakpoint":
        item.update(time=rnum(rng, 64), filename=rstr(rng), line_num=rnum(rng), column_num=rnum(rng), scopes=[])
        sc = []
        for _ in range(rng.randrange(0, 4)):
            loc, gen, seen = {}, {}, set()
            for _ in range(rng.randrange(0, 8)):
                n = rng.choice(["a", "b", "c.d"]) + "".join(rng.choice([f"[{rng.randrange(13)}]", f".{rng.choice('xyz')}",
                                                                      f"[{rng.randrange(10**25)}]"]) for _ in range(rng.randrange(3)))
                if rng.random() < 0.3:
                    n = rstr(rng, False)
                if tok_equiv(n) in seen:
                    continue
                seen.add(tok_equiv(n))
                loc[n] = rstr(rng)
            for _ in range(rng.randrange(0, 4)):
                gen[rstr(rng, False)] = rstr(rng)
            s = {"instance_id": rnum(rng), "instance_name": rstr(rng), "breakpoint_id": rnum(rng), "namespace_id": rnum(rng),
                 "bp_type": rng.choice(["", "normal", "data"])}
            item["scopes"].append({**s, "local": list(loc.items()), "generator": list(gen.items())})
            w = {**s, "local": loc, "generator": gen}
            if not w["bp_type"]:
                del w["bp_type"]
            sc.append(w)
        want.update(type="breakpoint", payload={"time": item["time"], "filename": item["filename"], "line_num": item["line_num"],
                                                "column_num": item["column_num"], "instances": sc})
    elif kind == "info_status":
        item["status"] = rstr(rng)
        want.update(type="debugger-info", payload={"command": "status", "status": item["status"]})
    elif kind == "info_filenames":
        item["filenames"] = [rstr(rng) for _ in range(rng.randrange(0, 5))]
        want.update(type="debugger-info", payload={"command": "filename", "filenames": item["filenames"]})
    elif kind == "info_options":
        item["options"] = {rstr(rng, False): rng.choice(["true", "false", str(rnum(rng, 48)), "x" + rstr(rng)]) for _ in range(4)}
        dec = {k: v == "true" if v in ("true", "false") else int(v) if v.isdigit() and v.isascii() else v for k, v in item["options"].items()}
        want.update(type="debugger-info", payload={"command": "options", "options": dec})
    elif kind == "info_design":
        item["design"] = {rstr(rng, False): {rstr(rng, False): rnum(rng) for _ in range(rng.randrange(1, 3))} for _ in range(rng.randrange(0, 3))}
        want.update(type="debugger-info", payload={"command": "design", "design": item["design"]})
    elif kind == "info_breakpoints":
        item["bps"] = [{"id": rnum(rng), "filename": rstr(rng), "line_num": rnum(rng), "column_num": rnum(rng), "var": rstr(rng),
                        "type": rng.choice([1, 2, 3])} for _ in range(rng.randrange(0, 5))]
        pay = [dict(b) for b in item["bps"]]
        for b in pay:
            if not b["var"]:
                del b["var"]
        want.update(type="debugger-info", payload={"command": "breakpoints", "breakpoints": pay})
    elif kind == "evaluation":
        item["result"] = rstr(rng)
        want.update(type="evaluation", payload={"result": item["result"]})
    else:
        item.update(track_id=rnum(rng, 64), namespace_id=rnum(rng), value=rstr(rng))
        want.update(type="monitor", payload={"track_id": item["track_id"], "namespace_id": item["namespace_id"], "value": item["value"]})
    return item, want


def same(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


def nodup(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError("duplicate member " + str([k for k, _ in pairs]))
    return d


def judge_resp(item, want, r):
    try:
        got = json.loads(r["text"], object_pairs_hook=nodup)
    except ValueError as e:
        raise Violation(f"response is not one JSON document ({e}): {r['text']!r} for {item}")
    sub = dict(got) if isinstance(got, dict) else got
    if item["kind"] == "generic_req":
        # the payload may carry more; what is specified must be there
        sub = {**got, "payload": {k: v for k, v in got["payload"].items() if k in want["payload"]}}
    if not same(sub, want):
        raise Violation(f"response {got!r} instead of {want!r}")


def work(case, cfg):
    rng = random.Random(case)
    out = {"good": 0, "bad": 0, "resp": 0, "garbage": 0, "keys": [], "sample": None}
    with Probe(cfg["exe"], timeout=60) as p:
        items, meta = [], []
        for _ in range(cfg["n"]):
            k = rng.random()
            if k < 0.55:
                text, expect, bad, tok = make_request(rng)
                items.append(hexitem("request", text))
                meta.append(("req", text, expect, bad, tok))
            elif k < 0.65:
                text = corrupt(rng, make_request(rng)[0])
                try:
                    v = json.loads(text)
                    if isinstance(v, dict):
                        continue
                except ValueError:
                    pass
                items.append(hexitem("request", text))
                meta.append(("req", text, {}, "no JSON object", None))
            else:
                item, want = make_response(rng)
                items.append(item)
                meta.append(("resp", want))
        res = p.batch(items)
        for item, m, r in zip(items, meta, res):
            if m[0] == "req":
                judge_req(*m[1:], r)
                out["bad" if m[3] else "good"] += 1
                out["keys"].append(zlib.crc32(m[1].encode("utf-8", "surrogatepass")))
            else:
                judge_resp(item, m[1], r)
                out["resp"] += 1
                out["keys"].append(zlib.crc32(r["text"].encode("utf-8", "surrogatepass")))
        out["sample"] = {"request": items[0], "reply": res[0]}
        p.end()
    return out


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("requests of every type with random hostile strings, numbers at type borders, member order, escapes, white space, missing "
                "and ill-typed fields, truncated texts; responses of every type, compact and pretty. Oracle: the fields that were put in. "
                "non-trivial: distinct messages")
    for case, r in ctx.pool(work, [f"C12/{ctx.seed}/{i}" for i in range(ctx.n(32, 320))], {"exe": exe, "n": ctx.n(1500, 3000)}):
        ctx.evaluations += r["good"] + r["bad"] + r["resp"]
        ctx.nontrivial.update(r["keys"])
        for k in ("good", "bad", "resp"):
            ctx.count({"good": "requests_accepted", "bad": "requests_refused", "resp": "responses"}[k], r[k])
        if len(ctx.samples) < 4:
            ctx.samples.append(r["sample"])
    return ctx.finish(1000, 500)
