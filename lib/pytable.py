"""Drives the repository's Python table classes (bindings/python/hgdb/db.py) in a process of its own: one JSON order per line.
   argv: directory with the compiled module, path of db.py"""
import importlib.util, json, sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
spec = importlib.util.spec_from_file_location("hgdb_db", sys.argv[2])
M = importlib.util.module_from_spec(spec)
spec.loader.exec_module(M)
dbs = {}


def var(v):
    r = M.Variable(v["name"], v["value"], v["rtl"])
    if v.get("type"):
        r.type = M.VariableType(v["type"])
    for i in v.get("indices", []):
        r.indices.append(M.VariableIndex(var(i["var"]), i["min"], i["max"]))
    return r


def entries(parent, scope, late, names):
    for e in scope:
        kw = {}
        if e.get("line") is not None:
            kw["line"] = e["line"]
        if e.get("column"):
            kw["col"] = e["column"]
        if e.get("filename"):
            kw["filename"] = e["filename"]
        if e["type"] in ("decl", "assign"):
            v = var({**e["variable"], "indices": e.get("indices", [])})
            t = M.VarDecl if e["type"] == "decl" else M.VarAssign
            if late:
                x = parent.add_child(t, v)
                for k, y in kw.items():
                    setattr(x, k, y)
            else:
                x = parent.add_child(t, v, **kw)
        else:
            x = parent.add_child(M.Scope, **kw)
            entries(x, e.get("scope", []), late, names)
        names.append(x.get_filename())


def table(o):
    mods, names = {}, []
    for m in o["modules"]:
        mods[m["name"]] = M.Module(m["name"])

    def fill(m):
        x = mods[m["name"]]
        entries(x, m["scope"], o["late"], names)
        for i in m["instances"]:
            x.add_instance(mods[i["module"]], i["name"])
    if o["with"]:
        with M.JSONSymbolTable(o["top"], o["file"], **o["kw"]) as t:
            for m in o["modules"]:
                t.add_definition(mods[m["name"]])
                fill(m)
    else:
        t = M.JSONSymbolTable(o["top"], o["file"], **o["kw"])
        for m in o["modules"]:
            fill(m)
            t.add_definition(mods[m["name"]])
        t.close()
    return names


def call(o):
    d = dbs.get(o["db"])
    if o["f"] == "open":
        dbs[o["db"]] = M.DebugSymbolTable(o["a"][0])
        return None
    if o["f"] == "drop":
        d = None
        del dbs[o["db"]]
        return None
    r = getattr(d, o["f"])(*o["a"], **o.get("kw", {}))
    return sorted(r) if isinstance(r, (set, list)) else r


for line in sys.stdin:
    o = json.loads(line)
    try:
        if o["op"] == "table":
            r = {"r": table(o)}
        else:
            r = {"r": call(o)}
    except M.DebugSymbolTableException as e:
        r = {"refused": str(e)}
    except Exception as e:
        r = {"error": type(e).__name__ + ": " + str(e)}
    sys.stdout.write(json.dumps(r) + "\n")
    sys.stdout.flush()
