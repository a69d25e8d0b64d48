"""C33: tables built with the Python library read back the same"""
import json, os, random, shutil, sqlite3, subprocess, sys, tempfile, zlib
import build as B
import tablemodel as T, tablecheck as K
from c16 import HOSTILE
from host import HarnessError, Violation
from probe import Probe

VERIF = B.VERIF


class Lib:
    """the library in a process of its own"""

    def __init__(self, so):
        self.log = []
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "lib/pytable.py"), os.path.dirname(so),
                                   os.path.join(B.REPO, "bindings/python/hgdb/db.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def ask(self, **o):
        self.log.append(o)
        try:
            self.p.stdin.write(json.dumps(o) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            self.p.kill()
            err = self.p.stderr.read()
            raise Violation(f"the library's process ended during {o.get('f', o['op'])}: {err[-600:]}", self.tail())
        return json.loads(line)

    def tail(self):
        return json.dumps(self.log[-40:])[-6000:]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()


def spec(rng, hostile):
    """modules as the library can express them"""
    t = T.Gen(rng, refs=False, index=True, delay=True, multi_top=False, max_lines=rng.choice([3, 8, 30]), max_insts=16).table()

    def clean(e):
        e.pop("condition", None)
        if e["type"] == "block":
            if not e["scope"]:
                e["scope"] = [{"type": "none", "line": rng.randrange(1, 9)}]
            for x in e["scope"]:
                clean(x)
        if e["type"] != "block":
            e.pop("filename", None)
        if not e.get("line"):
            e.pop("column", None)
            e.pop("line", None)
            if rng.random() < 0.5:
                e["line"] = 0
        v = e.get("variable")
        if v:
            if v.get("type") == "normal":
                v.pop("type")
            v.pop("depth", None)
            if hostile and rng.random() < 0.3:
                v[rng.choice(["name", "value"])] = rng.choice(HOSTILE)
        for i in e.get("indices", []):
            i["var"].pop("depth", None)
        if hostile and "filename" in e and rng.random() < 0.3:
            e["filename"] = rng.choice(HOSTILE) + e["filename"]
    for m in t["table"]:
        m.setdefault("instances", [])
        m["variables"] = []
        for e in m["scope"]:
            clean(e)
    used = {i["module"] for m in t["table"] for i in m["instances"]}
    tops = sorted({m["name"] for m in t["table"]} - used)
    return {"generator": rng.choice([None, "chisel", 'a"b']), "table": t["table"], "top": t["top"] if isinstance(t["top"], str) else tops[0]}


def expected(s):
    """the file: what was declared, and the defaults of the library"""
    def entry(e):
        o = {k: x for k, x in e.items() if k not in ("scope", "variable", "indices")}
        o.setdefault("line", 0)
        if e["type"] == "block":
            o["scope"] = [entry(x) for x in e["scope"]]
        if "variable" in e:
            o["variable"] = dict(e["variable"])
        if e.get("indices"):
            o["indices"] = [{"var": dict(i["var"]), "min": i["min"], "max": i["max"]} for i in e["indices"]]
        return o
    return {"top": s["top"], "generator": s["generator"] or "python",
            "table": [{"type": "module", "name": m["name"], "scope": [entry(e) for e in m["scope"]],
                       "instances": sorted(m["instances"], key=lambda i: i["name"]), "variables": []} for m in s["table"]]}


def normal(got):
    """the file without what says nothing"""
    def entry(e):
        e = dict(e)
        e.setdefault("line", 0)
        if e.get("type") == "block":
            e["scope"] = [entry(x) for x in e["scope"]]
        if not e.get("indices"):
            e.pop("indices", None)
        if "variable" in e and isinstance(e["variable"], dict) and e["variable"].get("type") == "normal":
            e["variable"] = {k: v for k, v in e["variable"].items() if k != "type"}
        return e
    got = dict(got)
    mods = []
    for m in got["table"]:
        m = {k: v for k, v in m.items() if not (k == "line" and not v)}
        m["scope"] = [entry(e) for e in m["scope"]]
        m["instances"] = sorted(m.get("instances", []), key=lambda i: i["name"])
        m.setdefault("variables", [])
        mods.append(m)
    got["table"] = mods
    return got


def differ(got, want):
    a, b = json.dumps(got, sort_keys=True), json.dumps(want, sort_keys=True)
    k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
    return f"...{a[max(0, k - 80):k + 80]}... instead of ...{b[max(0, k - 80):k + 80]}..."


SWAP = "JSONSymbolTable writes the name of an instance and the name of its module in each other's place"


def json_case(rng, lib, p, d, i, out):
    hostile = rng.random() < 0.4
    s = spec(rng, hostile)
    file = os.path.join(d, f"t{i}.json")
    r = lib.ask(op="table", modules=s["table"], top=s["top"], file=file, late=rng.random() < 0.5, kw={"generator": s["generator"]} if s["generator"] else {},
                **{"with": rng.random() < 0.6})
    if "r" not in r:
        raise Violation(f"building a table raises {r}", json.dumps(s)[:3000])
    with open(file) as f:
        text = f.read()
    try:
        got = normal(json.loads(text))
    except (ValueError, KeyError, TypeError) as e:
        raise Violation(f"the written table is not a table ({type(e).__name__}: {e})", text[:3000])
    want = expected(s)
    if got != want:
        # the known finding, and nothing else: every instance of every module is written the wrong way round
        swapped = {**want, "table": [{**m, "instances": sorted(({"name": i["module"], "module": i["name"]} for i in m["instances"]),
                                                              key=lambda i: i["name"])} for m in want["table"]]}
        key = lambda t: [sorted((i["name"], i["module"]) for i in m["instances"]) for m in t["table"]]
        rest = lambda t: [{k: v for k, v in m.items() if k != "instances"} for m in t["table"]]
        if key(got) == key(swapped) and rest(got) == rest(want) and {k: v for k, v in got.items() if k != "table"} == {
                k: v for k, v in want.items() if k != "table"}:
            out["swapped"] += 1
            got = want
        else:
            raise Violation("the written table differs: " + differ(got, want), text[:3000])
    # file names of the entries, innermost first
    names = []

    def walk(e, file):
        f = e.get("filename") or file
        for x in e.get("scope", []):
            walk(x, f)
        names.append(f)
    for m in s["table"]:
        for e in m["scope"]:
            walk(e, None)
    if r["r"] != names:
        raise Violation(f"get_filename gives {r['r']} instead of {names}", json.dumps(s)[:3000])
    out["tables"] += 1
    out["entries"] += len(names)
    out["keys"].append(zlib.crc32(text.encode("utf-8", "surrogatepass")))
    # and the runtime reads it like that
    if not hostile:
        m = T.Model(got)
        L = K.load(p, got, "parse", json.dumps(got) if out["swapped"] else text)
        M = K.Matched(rng, L, m)
        K.check_misc(rng, L, m, M)
        if i % 3 == 0:
            K.check_locations(rng, L, m, M)
            K.check_scoping(rng, L, m, M, 10)
        L.free()
        out["loaded"] += 1
    out["sample"] = {"json": text[:400]}


TABLES = ["breakpoint", "instance", "scope", "variable", "context_variable", "generator_variable", "assignment", "annotation", "event"]


def rows(file):
    c = sqlite3.connect(f"file:{file}?mode=ro", uri=True)
    try:
        return {t: sorted(c.execute(f'select * from "{t}"').fetchall(), key=repr) for t in TABLES}
    finally:
        c.close()


def sql_case(rng, lib, d, i, out):
    file = os.path.join(d, f"s{i}.db")
    name = f"d{i}"
    lib.ask(op="sql", db=name, f="open", a=[file])
    bp, inst, scope, var = {}, {}, {}, {}
    ctx, gen, asg = [], [], []
    in_tx = False
    text = lambda: rng.choice(["", "a", "top.u", "a == 1", "x[0]", "longer name", "it's", *HOSTILE])
    pool = rng.choice([6, 30])
    ids = [rng.choice([k, k, k, 1 << 31, (1 << 32) - 1 - k]) for k in range(pool)]
    bad = lambda: rng.choice([-1, 1 << 32, (1 << 32) + 1, 1 << 63, 1 << 70, "1", None, 1.5])

    def known(m):
        return rng.choice(sorted(m)) if m and rng.random() < 0.85 else rng.choice(ids)

    def ask(f, a, kw={}):
        return lib.ask(op="sql", db=name, f=f, a=a, kw=kw)

    def compare():
        want = {"breakpoint": [(k, *v) for k, v in bp.items()], "instance": [(k, *v) for k, v in inst.items()], "scope": list(scope.items()),
                "variable": [(k, *v) for k, v in var.items()], "context_variable": ctx, "generator_variable": gen, "assignment": asg,
                "annotation": [], "event": []}
        have = rows(file)
        out["compared"] += 1
        for t in TABLES:
            w = sorted(want[t], key=repr)
            if have[t] != w:
                lost = [x for x in w if x not in have[t]][:2]
                new = [x for x in have[t] if x not in w][:2]
                raise Violation(f"table {t}: rows {new} instead of {lost} ({len(have[t])} rows, {len(w)} stored)", lib.tail())

    for step in range(rng.choice([10, 40, 90])):
        k = rng.choice(["instance", "breakpoint", "breakpoint", "variable", "variable", "scope", "ctx", "ctx", "gen", "asg", "has", "files", "tx", "bad", "cmp",
                        "reopen"])
        want = None           # None: accepted
        change = lambda: None
        if k == "instance":
            i_, n, an = rng.choice(ids), text(), text()
            f, a = "store_instance", [i_, n] + ([an] if rng.random() < 0.5 else [])
            change = lambda: inst.__setitem__(i_, (n, an if len(a) == 3 else ""))
        elif k == "breakpoint":
            b, i_ = rng.choice(ids), known(inst)
            full = [b, i_, text(), rng.choice([0, 1, 5, 70000, (1 << 32) - 1]), rng.choice([0, 3, 80]), text(), text()]
            f, a = "store_breakpoint", full[:rng.randrange(4, 8)]
            row = full[1:len(a)] + [0, "", ""][len(a) - 4:]
            want = i_ in inst
            change = lambda: bp.__setitem__(b, tuple(row))
        elif k == "variable":
            i_, v, rt = rng.choice(ids), text(), rng.random() < 0.5
            f, a = "store_variable", [i_, v] + ([rt] if not rt or rng.random() < 0.5 else [])
            change = lambda: var.__setitem__(i_, (v, int(rt)))
        elif k == "scope":
            i_ = rng.choice(ids)
            l = [known(bp) for _ in range(rng.choice([0, 1, 2, 5]))]
            f, a = "store_scope", [i_] + l
            want = all(b in bp for b in l)
            change = lambda: scope.__setitem__(i_, " ".join(map(str, l)))
        elif k == "ctx":
            n, b, v, dl = text(), known(bp), known(var), rng.random() < 0.4
            f, a = "store_context_variable", [n, b, v] + ([dl] if dl or rng.random() < 0.5 else [])
            want = b in bp and v in var
            change = lambda: ctx.append((n, b, v, int(dl)))
        elif k == "gen":
            n, i_, v, an = text(), known(inst), known(var), text()
            f, a = "store_generator_variable", [n, i_, v] + ([an] if rng.random() < 0.5 else [])
            want = i_ in inst and v in var
            change = lambda: gen.append((n, i_, v, an if len(a) == 4 else ""))
        elif k == "asg":
            n, v, b, c = text(), text(), known(bp), text()
            f, a = "store_assignment", [n, v, b] + ([c] if rng.random() < 0.5 else [])
            want = b in bp
            change = lambda: asg.append((n, v, b, c if len(a) == 4 else "", None))
        elif k == "has":
            f, m = rng.choice([("has_instance_id", inst), ("has_breakpoint_id", bp), ("has_variable_id", var)])
            x = known(m)
            r = ask(f, [x])
            out["asked"] += 1
            if r.get("r") is not (x in m):
                raise Violation(f"{f}({x}) answers {r}, stored: {sorted(m)}", lib.tail())
            continue
        elif k == "files":
            r = ask("get_filenames", [])
            out["asked"] += 1
            if r.get("r") != sorted({v[1] for v in bp.values()}):
                raise Violation(f"get_filenames answers {r} instead of {sorted({v[1] for v in bp.values()})}", lib.tail())
            continue
        elif k == "tx":
            r = ask("end_transaction" if in_tx else "begin_transaction", [])
            if "r" not in r:
                raise Violation(f"{'end' if in_tx else 'begin'}_transaction raises {r}", lib.tail())
            in_tx = not in_tx
            continue
        elif k == "bad":
            # what is no such number is never stored
            f, a = rng.choice([("store_instance", [bad(), "x"]), ("store_variable", [bad(), "x"]), ("store_variable", [rng.choice(ids), 5]),
                               ("store_instance", [rng.choice(ids), None]), ("store_scope", [bad()])])
            r = ask(f, a)
            if "r" in r:
                raise Violation(f"{f}{tuple(a)} is accepted", lib.tail())
            out["refused"] += 1
            continue
        elif k == "reopen":
            if in_tx or rng.random() < 0.6:
                continue
            lib.ask(op="sql", db=name, f="drop", a=[])
            r = lib.ask(op="sql", db=name, f="open", a=[file])
            if "r" not in r:
                raise Violation(f"opening the table again raises {r}", lib.tail())
            compare()
            continue
        else:
            if not in_tx:
                compare()
            continue
        r = ask(f, a)
        if want is False:
            if "refused" not in r:
                raise Violation(f"{f}{tuple(a)} refers to something that was never stored, and the answer is {r}", lib.tail())
            out["refused"] += 1
        else:
            if "r" not in r:
                raise Violation(f"{f}{tuple(a)} raises {r}", lib.tail())
            change()
            out["stored"] += 1
    if in_tx:
        ask("end_transaction", [])
    compare()
    lib.ask(op="sql", db=name, f="drop", a=[])
    out["dbs"] += 1
    have = rows(file)
    out["keys"].append(zlib.crc32(repr(have).encode("utf-8", "surrogatepass")))


def work(case, cfg):
    rng = random.Random(case)
    out = {"tables": 0, "loaded": 0, "entries": 0, "dbs": 0, "stored": 0, "refused": 0, "asked": 0, "compared": 0, "swapped": 0, "keys": [], "sample": None}
    d = tempfile.mkdtemp(prefix="c33.")
    try:
        with Probe(cfg["exe"], timeout=60) as p, Lib(cfg["so"]) as lib:
            for i in range(cfg["n"]):
                json_case(rng, lib, p, d, i, out)
                sql_case(rng, lib, d, i, out)
                lib.log = []
            p.end()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    so = ctx.build("plain", "_hgdb")["_hgdb"]
    ctx.rule = ("random tables declared through the Python classes: the written JSON is compared with the declarations by an independent reader and "
                "loaded by the runtime; random sequences of rows stored through DebugSymbolTable (references to rows that are not there, numbers out of "
                "range, transactions, the file opened again) are compared with the rows an independent SQLite reader finds. non-trivial: distinct tables")
    ctx.assumptions = ["the compiled module is the repository's _hgdb.cc and schema.hh on stand-ins for pybind11 and sqlite_orm (neither is installed)",
                       "every block directly in a module has a file name (the file format asks for it)"]
    swapped = 0
    for case, r in ctx.pool(work, [f"C33/{ctx.seed}/{i}" for i in range(ctx.n(48, 320))], {"exe": exe, "so": so, "n": ctx.n(20, 80)}):
        ctx.evaluations += r["tables"] + r["stored"] + r["refused"] + r["asked"]
        ctx.nontrivial.update(r["keys"])
        swapped += r["swapped"]
        for k in ("tables", "loaded", "entries", "dbs", "stored", "refused", "asked", "compared"):
            ctx.count(k, r[k])
        if len(ctx.samples) < 3:
            ctx.samples.append(r["sample"])
    if swapped:
        ctx.count("tables_with_swapped_instances", swapped)
        ctx.violate("instances-swapped", SWAP)
    return ctx.finish(200, 100)
