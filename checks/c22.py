"""C22: path mapping"""
import json, random, zlib
import tablemodel as T, tablecheck as K
from probe import Probe
from host import Violation

CLIENT = ["/home/u/proj", "/home/u/proj2", "/home/u/pro", "/mnt/c d/ü", "/x", "/home/v/a.b", "work/x", "/home/w/t"]
TABLE = ["/build/gen", "/build/gen2", "/build/ge", "/srv/日本/s", "/t", "/opt/y+z", "rel/dir", "relx", ""]
REST = ["a.py", "b.py", "sub/a.py", "sub/deep/x.scala", "a", "ü v.py", "gen/a.py", "a.py.bak"]


def inside(path, d):
    if d == "":
        return not path.startswith("/")
    return path.startswith(d + "/")


def overlap(a, b):
    return a == b or inside(a, b) or inside(b, a)


def pick(rng, dirs, n):
    out = []
    for d in rng.sample(dirs, len(dirs)):
        if len(out) < n and not any(overlap(d, o) for o in out):
            out.append(d)
    return out


def join(d, r):
    return d + "/" + r if d else r


def translate(name, pairs):
    """pairs: [(from, to)] with disjoint directories"""
    for a, b in pairs:
        if inside(name, a):
            return join(b, name[len(a) + 1:] if a else name)
    return name


def work(case, cfg):
    rng = random.Random(case)
    out = {"n": 0, "mapped": 0, "found": 0, "keys": [], "sample": None}
    with Probe(cfg["exe"], timeout=60) as p:
        for _ in range(cfg["n"]):
            n = rng.randrange(0, 4)
            cd, td = pick(rng, CLIENT, n), pick(rng, TABLE, n)
            pairs = list(zip(cd, td))
            t = T.Gen(rng, max_lines=6, max_insts=8, nested_files=True, index=False).table()
            names = {}

            def fname(f):
                if f not in names:
                    names[f] = join(rng.choice(td) if td and rng.random() < 0.7 else rng.choice(TABLE[:-1]), rng.choice(REST))
                return names[f]

            def walk(e):
                if "filename" in e:
                    e["filename"] = fname(e["filename"])
                for x in e.get("scope", []):
                    walk(x)
            for m in t["table"]:
                walk(m)
            model = T.Model(t)
            L = K.load(p, t)
            conf = {c + ("/" if rng.random() < 0.2 and c else ""): d + ("/" if rng.random() < 0.2 and d else "") for c, d in pairs}
            if rng.random() < 0.2:
                # an earlier mapping that is replaced as a whole
                p.ask("table", q="map", t=L.t, m={"/other": "/build/gen", "/home/u/proj": "/zzz"})
                p.ask("table", q="map", t=L.t, m=conf)
            elif conf:
                p.ask("table", q="map", t=L.t, m=conf)
            to_t = lambda f: translate(f, pairs)
            to_c = lambda f: translate(f, [(b, a) for a, b in pairs])
            files = sorted({f for m in model.modules.values() for f in m.files})
            # names, both directions
            probes = set(files) | {join(c, r) for c in cd + CLIENT for r in rng.sample(REST, 2)} | {join(c, r) for c in td + TABLE for r in rng.sample(REST, 2)}
            probes |= {c + "x/" + REST[0] for c in cd + td if c} | {c + ".py" for c in cd + td if c} | {c[:-1] for c in cd + td if c}
            probes |= {"/q" + c + "/a.py" for c in cd + td if c}
            probes = sorted(x for x in probes if x and x not in cd and x not in td)
            for f, g in zip(probes, L.qs([{"q": "to_db", "file": f} for f in probes])):
                if g != to_t(f):
                    raise Violation(f"mapping {conf}: client name {f!r} becomes {g!r} instead of {to_t(f)!r}")
                out["mapped"] += g != f
            for f, g in zip(probes, L.qs([{"q": "to_client", "file": f} for f in probes])):
                if g != to_c(f):
                    raise Violation(f"mapping {conf}: table name {f!r} is shown as {g!r} instead of {to_c(f)!r}")
            out["n"] += 2 * len(probes)
            # what the table's files are called
            tops = {m for m, _ in model.instances.values()}
            want = sorted({to_c(f) for m in tops for f in model.modules[m].files})
            got = sorted(set(L.q("files")))
            if got != want:
                raise Violation(f"mapping {conf}: file names {got} instead of {want}")
            # locations
            allst = [(i, s) for i, (m, _) in model.instances.items() for s in model.modules[m].stmts]
            for f in rng.sample(probes, min(8, len(probes))) + [to_c(f) for f in files] + rng.sample(files, min(2, len(files))):
                db = to_t(f)
                exp = sorted((s.line, s.col, i, to_c(s.file)) for i, s in allst if T.file_matches(db, s.file))
                g = L.q("bps1", file=f)
                got = sorted((b["line"], b["column"], L.q("inst_name", id=b["instance_id"]), b["filename"]) for b in g)
                out["n"] += 1
                out["found"] += len(got)
                if got != exp:
                    raise Violation(f"mapping {conf}: breakpoints of {f!r} are {got[:6]} instead of {exp[:6]} ({len(got)}, {len(exp)})")
                for line in sorted({e[0] for e in exp})[:2]:
                    g = L.q("bps2", file=f, line=line)
                    got = sorted((b["column"], b["filename"]) for b in g)
                    e2 = sorted((e[1], e[3]) for e in exp if e[0] == line)
                    if got != e2:
                        raise Violation(f"mapping {conf}: breakpoints of {f!r}:{line} are {got[:6]} instead of {e2[:6]}")
                    for b in g[:3]:
                        x = L.q("bp", id=b["id"])
                        if x["filename"] != b["filename"]:
                            raise Violation(f"mapping {conf}: breakpoint {b['id']} is in {b['filename']!r} and in {x['filename']!r}")
            if pairs and any(to_c(f) != f for f in files):
                out["keys"].append(zlib.crc32(json.dumps([conf, files]).encode()))
            out["sample"] = {"mapping": conf, "files": files[:3], "shown": [to_c(f) for f in files][:3]}
            L.free()
        p.end()
    return out


def run(ctx):
    exe = ctx.build("asan", "probe")["probe"]
    ctx.rule = ("random mappings between disjoint directories (with trailing slashes, siblings that share a prefix, relative and empty table "
                "directories) over random tables; names in both directions, file lists, locations and breakpoints by id. Oracle: a translation by "
                "path components. Not judged: mappings whose directories contain one another, and a file named like the directory itself. "
                "non-trivial: a mapping that changes a name of the table")
    for case, r in ctx.pool(work, [f"C22/{ctx.seed}/{i}" for i in range(ctx.n(32, 200))], {"exe": exe, "n": ctx.n(25, 100)}):
        ctx.evaluations += r["n"]
        ctx.nontrivial.update(r["keys"])
        ctx.count("names_mapped", r["mapped"])
        ctx.count("breakpoints_returned", r["found"])
        if len(ctx.samples) < 3:
            ctx.samples.append(r["sample"])
    return ctx.finish(1000, 50)
