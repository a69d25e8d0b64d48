#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] [--replay FILE]: decides one property"""
import importlib, json, os, sys, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("lib", "tools", "checks"):
    sys.path.insert(0, os.path.join(VERIF, d))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    os.environ.setdefault("VERIF_SEED", "1")
    os.environ.setdefault("VERIF_TIER", "quick")
    import ctx as C
    mod = importlib.import_module("c" + prop[1:].lower())
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            r = json.load(f)
        os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(r["seed"]), r["tier"]
        ctx = C.Ctx(prop)
        ctx.only = r["replay"]
        return mod.run(ctx)
    ctx = C.Ctx(prop)
    ctx.only = None
    return mod.run(ctx)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
