"""C20: what the VCD reader reports is what the file says"""
import os, random, tempfile
from probe import Probe
from host import Violation
from ctx import *

META = ["$date", "$version", "$timescale", "$comment"]
TYPES = ["wire", "reg", "integer", "parameter", "real", "event", "supply0", "tri", "wand", "time", "logic"]
SCOPES = ["module", "begin", "fork", "function", "task", "interface", "struct"]
IDCHARS = [chr(c) for c in range(33, 127)]
WORDS = ["today", "Mon", "1ns", "10", "ps", "Icarus", "Verilog", "b0", "0!", "x", "#12", "$var", "$scope", "$", "end", "$End", "v1.0:", "a=b", "ü", "$dumpvars", "rx", "b1"]


class Text:
    """the file and what it says: events with the place in the file where each of them is complete"""

    def __init__(self, rng):
        self.rng = rng
        self.parts, self.n = [], 0
        self.ev = []
        self.style = rng.choice(["lines", "wild", "one"])

    def ws(self, nl=True):
        r = self.rng
        if self.style == "lines":
            s = "\n" if nl else " "
        elif self.style == "one":
            s = " "
        else:
            s = "".join(r.choice([" ", "\n", "\t", "\r\n", "\f", "  ", "\n\n"]) for _ in range(r.randrange(1, 4)))
        self.put(s)

    def put(self, s):
        self.parts.append(s)
        self.n += len(s.encode("utf-8"))

    def toks(self, *t):
        for i, x in enumerate(t):
            self.put(x)
            self.ws(i == len(t) - 1)

    def event(self, *e):
        self.ev.append((self.n, list(e)))

    def text(self):
        return "".join(self.parts)


def ident(rng, used):
    while True:
        s = "".join(rng.choice(IDCHARS) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5, 10])))
        if rng.random() < 0.2:
            s = rng.choice("01xzb#rXZB$")+ s[1:]
        if s not in used and s != "$end":
            used.append(s)
            return s


def gen(rng):
    t = Text(rng)
    if rng.random() < 0.3 and t.style == "wild":
        t.ws()
    used, vars = [], []

    def meta(p=0.3):
        while rng.random() < p:
            k = rng.randrange(4)
            words = [rng.choice(WORDS) for _ in range(rng.randrange(0, 6))]
            t.toks(META[k], *words, "$end")
            t.event("meta", ["date", "version", "timescale", "comment"].index(META[k][1:]), words)

    def scope(d):
        ty, n = rng.choice(SCOPES), rng.choice(["top", "u0", "gen[0]", "a.b", "\\esc!", "x" * 40, "_", "$unit"])
        t.toks("$scope", ty, n, "$end")
        t.event("scope", ty, n)
        for _ in range(rng.randrange(0, 5)):
            k = rng.random()
            if k < 0.6:
                w = rng.choice([1, 1, 1, 8, 32, 64, 65, 128, 4096, 4294967295, 0])
                i = ident(rng, used) if not used or rng.random() < 0.9 else rng.choice(used)
                n = rng.choice(["clk", "data", "a[0]", "s.x", "\\q", "$t", "mem[3][1]"])
                ty = rng.choice(TYPES)
                sl = rng.choice(["", "", "[7:0]", "[3]", "[0:31]", "[-1:0]"])
                t.toks("$var", ty, str(w), i, n, *([sl] if sl else []), "$end")
                t.event("var", ty, w, i, n, sl)
                vars.append((i, w))
            elif k < 0.8 and d < 5:
                scope(d + 1)
            meta(0.1)
        t.toks("$upscope", "$end")
        t.event("up")

    meta(0.6)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        scope(0)
        meta(0.1)
    if rng.random() < 0.06:
        return t
    t.toks("$enddefinitions", "$end")
    t.event("enddef")
    now = 0

    def change():
        i, w = rng.choice(vars) if vars else (ident(rng, used), 1)
        k = rng.random()
        if k < 0.5:
            v = rng.choice("01xzXZ01")
            t.toks(v + i)
            t.event("val", now, i, v.lower(), True)
        elif k < 0.92:
            v = "".join(rng.choice("01xz" if rng.random() < 0.3 else "01") for _ in range(rng.choice([1, 2, 8, 32, 64, 65, 200])))
            if rng.random() < 0.15:
                v = v.upper()
            t.toks(rng.choice("bbbB") + v, i)
            t.event("val", now, i, v.lower(), False)
        else:
            # reals: there is nothing to report
            t.toks(rng.choice("rR") + rng.choice(["0", "1.5", "-3e10", "nan", "1e-300"]), i)
    for _ in range(rng.choice([0, 3, 10, 40])):
        k = rng.random()
        if k < 0.35:
            now = min(2**64 - 1, now + rng.choice([0, 1, 1, 5, 10, 1000, 2**31, 2**32, 2**40, 2**62]))
            z = "0" * rng.choice([0, 0, 0, 0, 1, 3])
            t.toks(f"#{z}{now}")
            t.event("time", now)
        elif k < 0.85:
            change()
        elif k < 0.93:
            a = rng.choice(["$dumpvars", "$dumpall", "$dumpon", "$dumpoff"])
            t.toks(a)
            t.event("dump", a)
            for _ in range(rng.randrange(0, 6)):
                change()
            t.toks("$end")
        else:
            # anywhere
            t.toks("$comment", *(rng.choice(WORDS) for _ in range(rng.randrange(0, 5))), "$end")
    return t


def norm(ev):
    out = []
    for e in ev:
        e = list(e)
        if e[0] == "meta" and isinstance(e[2], str):
            e[2] = e[2].split()
        if e[0] == "val":
            e[3] = e[3].lower()
        out.append(e)
    return out


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5])):
        if not b:
            return bytes(b)
        k = rng.randrange(6)
        i = rng.randrange(len(b))
        if k == 0:
            b[i] = rng.randrange(256)
        elif k == 1:
            del b[i:i + rng.choice([1, 1, 5, 50])]
        elif k == 2:
            b[i:i] = rng.choice([b"$end ", b" $var ", b" #", b"\n#99999999999999999999\n", b" #-5 ", b" #1x ", b"$scope ", b"\x00", b" b ", b" 1 ", b"$dumpvars ", b"$comment "])
        elif k == 3:
            b[i:i] = b[i:i + rng.randrange(1, 40)]
        elif k == 4:
            w = bytes(b).split()
            if w:
                j = rng.randrange(len(w))
                w[j] = rng.choice([b"", b"$end", b"x", b"4294967296", b"-1", b"99999999999999999999999", b"abc", b"#", b"b"])
                b = bytearray(b" ".join(w))
        else:
            del b[i:]
    return bytes(b)


_pr = None


def case(c, cfg):
    global _pr
    rng = random.Random(c)
    if _pr is None:
        _pr = Probe(cfg["probe"], timeout=20)
    out = {"files": 0, "events": 0, "cuts": 0, "mutants": 0, "refused": 0, "values": 0}
    kinds = set()
    text = b""
    try:
        for _ in range(cfg["n"]):
            t = gen(rng)
            text = t.text().encode("utf-8")
            want = [e for _, e in t.ev]
            if rng.random() < 0.3:
                text = text.rstrip()
            # a file is read like a stream
            if rng.random() < 0.15:
                with tempfile.NamedTemporaryFile(suffix=".vcd") as f:
                    f.write(text)
                    f.flush()
                    r = ask(_pr, file=f.name)
            else:
                r = ask(_pr, text)
            if "exc" in r:
                raise Violation(f"the reader throws {r['exc']}")
            got = norm(r["ev"])
            if not r["r"] or got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                raise Violation(f"result {r['r']} {r.get('message')}: report {i} of {len(want)} is {got[i:i + 1]} instead of {want[i:i + 1]}")
            out["files"] += 1
            out["events"] += len(got)
            out["values"] += sum(e[0] == "val" for e in got)
            kinds.add(("n", len(want) // 8, t.style))
            # cut off
            cut = rng.randrange(len(text) + 1)
            r = ask(_pr, text[:cut])
            if "exc" in r:
                text = text[:cut]
                raise Violation(f"the reader throws {r['exc']} where the file ends early")
            got = norm(r["ev"])
            # what is complete before the end
            sure = [e for n, e in t.ev if n <= cut]
            if got[:len(sure)] != sure:
                text = text[:cut]
                i = next((i for i, (a, b) in enumerate(zip(got, sure)) if a != b), min(len(got), len(sure)))
                raise Violation(f"a file that is cut off: report {i} is {got[i:i + 1]} instead of {sure[i:i + 1]}")
            if len(got) > len(sure) + 1:
                text = text[:cut]
                raise Violation(f"a file that is cut off: {got[len(sure):]} are reported after all that is there")
            out["cuts"] += 1
            # anything else
            text = mutate(rng, text) if rng.random() < 0.9 else bytes(rng.randrange(256) for _ in range(rng.randrange(60)))
            r = ask(_pr, text)
            if "exc" in r:
                raise Violation(f"the reader throws {r['exc']}")
            out["mutants"] += 1
            out["refused"] += not r["r"]
            kinds.add(("m", r["r"], len(r["ev"]) // 8))
        r = ask(_pr, file="/nonexistent/no.vcd")
        if r.get("r") is not False or r.get("error") is not True:
            raise Violation(f"a file that is not there gives {r}")
    except Violation as e:
        _pr.kill()
        _pr = None
        e.detail = {"text": text.decode("latin-1"), "detail": e.detail}
        raise
    return {"kinds": sorted(kinds, key=str), **out}


def ask(pr, text=None, file=None):
    if file:
        return pr.ask("vcd", file=file)
    return pr.ask("vcd", text_hex=text.hex())


def run(ctx):
    bins = ctx.build("asan", "probe")
    ctx.rule = ("random VCD files (nested scopes, all declarations, scalar, vector and real changes, times to 64 bits, dump sections, comments, any layout), the same "
                "cut off anywhere, and mutated; reports are compared with what was written, and for cut files with what is complete before the end")
    for c, r in ctx.pool(case, [f"C20/{ctx.seed}/{i}" for i in range(ctx.n(160, 1600))], {"probe": bins["probe"], "n": ctx.n(60, 200)}):
        for k in ("files", "events", "cuts", "mutants", "refused", "values"):
            ctx.count(k, r[k])
        ctx.evaluations += r["files"] + r["cuts"] + r["mutants"]
        for k in r["kinds"]:
            ctx.nontrivial.add(str(k))
        if len(ctx.samples) < 4:
            ctx.samples.append({"case": c, **{k: v for k, v in r.items() if k != "kinds"}})
    return ctx.finish(2000, 20)
