#!/usr/bin/env python3
"""Helpers for the planted bugs (seeded/): plant() writes one from text edits; `plant.py test ID...` confirms it in /repo
(applies, builds, passes the stable tests, demo fails with it and passes without) and runs the property's quick check."""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")

DEMO_CXX = r'''#!/bin/bash
# compiles demo.cc against the library built in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$PWD
inc=""
for h in algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do inc="$inc -include $h"; done
clang++-18 -std=c++20 -w -O0 -DASIO_STANDALONE -DFMT_CONSTEVAL= -DPERF_COUNT $inc -I$repo/_build/overlay/include -I$repo/_build/overlay/src \
    -I/usr/share/verilator/include/vltstd -I$repo/include -I$repo/src -I$repo/tools/vcd -I$repo/_build/src "$here/demo.cc" @EXTRA@ \
    -L$repo/_build/src -lhgdb -Wl,-rpath,$repo/_build/src -lfmt -pthread -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
VPI_STUB = r'''
#include <cstdarg>
#include "vpi_user.h"
extern "C" {
PLI_INT32 vpi_get(PLI_INT32, vpiHandle) { return 0; } PLI_BYTE8 *vpi_get_str(PLI_INT32, vpiHandle) { return nullptr; }
void vpi_get_value(vpiHandle, p_vpi_value) {} vpiHandle vpi_iterate(PLI_INT32, vpiHandle) { return nullptr; }
vpiHandle vpi_scan(vpiHandle) { return nullptr; } vpiHandle vpi_handle_by_name(PLI_BYTE8 *, vpiHandle) { return nullptr; }
vpiHandle vpi_handle_by_index(vpiHandle, PLI_INT32) { return nullptr; } vpiHandle vpi_handle(PLI_INT32, vpiHandle) { return nullptr; }
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info) { return 0; } void vpi_get_time(vpiHandle, p_vpi_time) {}
vpiHandle vpi_register_cb(p_cb_data) { return nullptr; } PLI_INT32 vpi_remove_cb(vpiHandle) { return 0; }
PLI_INT32 vpi_release_handle(vpiHandle) { return 0; } PLI_INT32 vpi_control(PLI_INT32, ...) { return 0; }
vpiHandle vpi_put_value(vpiHandle, p_vpi_value, p_vpi_time, PLI_INT32) { return nullptr; }
vpiHandle vpi_register_systf(p_vpi_systf_data) { return nullptr; } PLI_INT32 vpi_printf(PLI_BYTE8 *, ...) { return 0; }
PLI_INT32 vpi_chk_error(p_vpi_error_info) { return 0; }
}
'''


E2E_SH = r'''#!/bin/bash
# runs demo.py: the library built in /repo inside a small simulator (simhost), driven over its WebSocket
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$PWD
inc=""
for h in algorithm functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do inc="$inc -include $h"; done
clang++-18 -std=c++20 -w -O0 -DASIO_STANDALONE -DFMT_CONSTEVAL= -DPERF_COUNT $inc -I$repo/_build/overlay/include -I$repo/_build/overlay/src \
    -I/usr/share/verilator/include/vltstd -I$repo/include -I$repo/src -I$repo/tools/vcd -I$repo/_build/src -I$here "$here/simhost.cc" "$here/vpi_dummy.cc" \
    -L$repo/_build/src -lhgdb -Wl,-rpath,$repo/_build/src -lfmt -pthread -rdynamic -ldl -o "$tmp/simhost" || exit 3
cd "$tmp" && PYTHONDONTWRITEBYTECODE=1 TMPDIR=$tmp timeout 200 python3 "$here/demo.py" "$tmp/simhost"
'''
E2E_PY = """import os, random, socket, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import host
from host import SimHost
EXE = sys.argv[1]


def free_port():
    for k in range(100):
        s = socket.socket()
        try:
            s.bind(("127.0.0.1", random.randrange(10000, 30000)))
            return s.getsockname()[1]
        except OSError:
            pass
        finally:
            s.close()


host.free_port = free_port


def sig(name, width=8):
    return {"name": name, "width": width, "kind": "reg"}


def mod(name, defn, signals, children=()):
    return {"name": name, "def": defn, "signals": signals, "children": list(children)}


def var(name, value=None, rtl=True, **kw):
    return {"name": name, "value": value or name, "rtl": rtl, **kw}


def bp(id, inst, line, cond="", ctx=(), **kw):
    return {"id": id, "inst": inst, "line": line, "col": 0, "file": "f.cc", "cond": cond, "trigger": "", "ctx": list(ctx), "assigned": [], **kw}


def cfg(modules, insts, bps, order=None, gen=None, **kw):
    return {"product": "dummy", "modules": modules, "clock": modules[0]["name"] + ".clk", "rewind": True, "argv": ["sim", "+DEBUG_NO_DB"],
            "flat": {"instances": insts, "bps": bps, "order": order or [b["id"] for b in bps], "gen": gen or [], "ann": [["clock", "$root." + modules[0]["name"] + ".clk"]]}, **kw}


def connect(h):
    c = h.client()
    r = c.request("connection", {"db_filename": "table"})
    assert r["status"] == "success", r
    return c


def add(c, line, cond=None, action="add"):
    p = {"filename": "f.cc", "line_num": line, "action": action}
    if cond:
        p["condition"] = cond
    r = c.request("breakpoint", p)
    assert r["status"] == "success", r


def cmd(c, name, **kw):
    c.request("command", {"command": name, **kw})


def fail(*a):
    print("FAIL", *a)
    sys.exit(1)


"""


def plant_e2e(id, prop, edits, needs, breaks, demo):
    """demo: python that follows E2E_PY"""
    h, l = VERIF + "/harness/", VERIF + "/lib/"
    plant(id, prop, edits, needs, breaks, demo_sh=E2E_SH, files={"demo.py": E2E_PY + demo, **{f: h + f for f in ("simhost.cc", "simvpi.hh", "flat.hh", "vpi_dummy.cc")},
                                                               "ws.py": l + "ws.py", "host.py": l + "host.py"})


def plant(id, prop, edits, needs, breaks, demo_cc=None, demo_sh=None, files=None, extra=""):
    d = os.path.join(SEEDED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = ""
    with tempfile.TemporaryDirectory() as tmp:
        subprocess.run(["git", "clone", "-q", REPO, tmp + "/r"], check=True)
        for f, old, new in edits:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], check=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if demo_cc is not None:
        open(d + "/demo.cc", "w").write((VPI_STUB if "NO_VPI_STUB" not in demo_cc else "") + demo_cc)
        demo_sh = demo_sh or DEMO_CXX.replace("@EXTRA@", extra)
    open(d + "/demo.sh", "w").write(demo_sh)
    os.chmod(d + "/demo.sh", 0o755)
    for n, src in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        if os.path.exists(src):
            shutil.copy(src, os.path.join(d, n))
        else:
            open(os.path.join(d, n), "w").write(src)
    print("planted", id)


REPO = os.environ.get("PLANT_REPO", "/repo")   # a scratch copy with its own build scripts
VP = os.environ.get("PLANT_VP", "/opt/vp")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def test(id, skip_check=False, skip_tests=False):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "/repo is not clean"
    res = {}
    try:
        r = sh(f"git -C {REPO} apply {d}/patch.diff")
        if r.returncode:
            return {"id": id, "apply": r.stderr}
        if skip_tests:
            r = sh(f"bash {VP}/build.sh")
            res["build"] = r.returncode
        else:
            r = sh(f"bash {VP}/test.sh {tempfile.gettempdir()}/seed_out.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            out = json.load(open(tempfile.gettempdir() + "/seed_out.json"))
            res["tests_failed"] = out["failed"] if not base else sorted(base - set(out["passed"]))
            res["tests_passed"] = len(out["passed"])
        r = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
        res["demo_bad"] = r.returncode
        res["demo_out"] = (r.stdout + r.stderr)[-300:]
        if not skip_check:
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {VERIF}/checks/run.py {prop} quick", cwd=VERIF)
            res["check"] = r.returncode
            res["check_out"] = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1]
    finally:
        sh(f"git -C {REPO} checkout -- .")
        sh(f"bash {VP}/build.sh")
    r = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
    res["demo_good"] = r.returncode
    res["ok"] = res.get("demo_bad") not in (0, 3) and r.returncode == 0 and not res.get("tests_failed") and (skip_check or res["check"] == 1)
    return {"id": id, **res}


if __name__ == "__main__" and len(sys.argv) > 2:
    for i in sys.argv[2:]:
        print(json.dumps(test(i, skip_check=sys.argv[1] == "confirm"), indent=1), flush=True)
