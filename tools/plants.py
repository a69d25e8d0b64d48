#!/usr/bin/env python3
"""The planted bugs, one function each: plants.py [ID...] regenerates seeded/ID from /repo's HEAD."""
import os, sys
from plant import plant, plant_e2e
BUGS = {}
PY_SH = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
PYTHONDONTWRITEBYTECODE=1 timeout 100 python3 "$here/demo.py" "$tmp"
'''
def bug(f):
    BUGS[f.__name__.replace("_", "-")] = f
    return f

@bug
def c01_unsigned_ge():
    plant("c01-unsigned-ge", "C01", [("src/eval.cc", "return left->eval() >= right->eval();",
        "return bits(left->eval()) >= bits(right->eval());")],
        "a >= comparison with a negative operand on exactly one side",
        "a >= b compares unsigned: -1 >= 1 is true", demo_cc=r'''
#include "eval.hh"
#include <cstdio>
int main() {
    hgdb::DebugExpression e("a >= b - 2");
    e.set_value("a", -5); e.set_value("b", 4);
    if (e.eval() != 0) { puts("-5 >= 2 holds"); return 1; }
    e.set_value("a", 2);
    return e.eval() == 1 ? 0 : 1;
}
''')

@bug
def c16_compress_rtl():
    plant("c16-compress-rtl", "C16", [
        ("include/json.hh", "return name == v.name && value == v.value && rtl == v.rtl;", "return name == v.name && value == v.value;"),
        ("include/json.hh", "auto h3 = std::hash<bool>{}(v.rtl);\n            return h1 ^ h2 ^ h3;", "return h1 ^ h2;")],
        "a compressed table in which a constant and a signal share name and value text",
        "compress() merges an RTL variable with a constant of the same name and value", demo_cc=r'''
#include "json.hh"
#include <cstdio>
int main() {
    hgdb::json::SymbolTable t("demo");
    auto *m = t.add_module("top");
    m->add_variable({.name = "a", .value = "a", .rtl = true});
    auto *s = m->create_scope<hgdb::json::Scope<>>();
    s->filename = "f.cc";
    s->create_scope<hgdb::json::VarStmt>(hgdb::json::Variable{.name = "a", .value = "a", .rtl = false}, 3, true);
    t.compress();
    auto out = t.output();
    puts(out.c_str());
    return out.find("\"rtl\":true") != std::string::npos && out.find("\"rtl\":false") != std::string::npos ? 0 : 1;
}
''')

@bug
def c13_column_any_line():
    plant("c13-column-any-line", "C13", [("src/db.cc", "if (col_num_ != scope->column) continue;",
        "if (scope->column && col_num_ != scope->column) continue;")],
        "a line with statements with and without a column, queried with a column",
        "statements without a column are returned for every queried column", demo_cc=r'''
#include "db.hh"
#include <cstdio>
#include <fstream>
int main() {
    { std::ofstream f("t.json"); f << R"({"generator":"x","top":"top","table":[{"type":"module","name":"top","instances":[],"variables":[],
    "scope":[{"type":"block","filename":"f.cc","scope":[{"type":"none","line":3,"column":7},{"type":"none","line":3},{"type":"none","line":3,"column":9}]}]}]})"; }
    hgdb::JSONSymbolTableProvider db("t.json");
    auto bps = db.get_breakpoints("f.cc", 3, 7);
    printf("%zu\n", bps.size());
    return bps.size() == 1 && db.get_breakpoints("f.cc", 3, 0).size() == 3 ? 0 : 1;
}
''')

@bug
def c12_time_32bit():
    plant("c12-time-32bit", "C12", [("src/proto.cc", 'set_member(payload, allocator, "time", time_);',
        'set_member(payload, allocator, "time", static_cast<uint32_t>(time_));')],
        "a breakpoint response at a simulation time of 2^32 or more",
        "the time of a breakpoint message loses its upper 32 bits", demo_cc=r'''
#include "proto.hh"
#include <cstdio>
int main() {
    hgdb::BreakPointResponse r(5000000000ull, "f.cc", 3, 1);
    auto s = r.str(false);
    puts(s.c_str());
    return s.find("5000000000") != std::string::npos ? 0 : 1;
}
''')

TOPIC = r"""
#include "server.hh"
#include "asio.hpp"
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
static int conn(int port) {
    for (int k = 0; k < 100; k++) {
        int fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (!connect(fd, (sockaddr *)&a, sizeof a)) {
            std::string r = "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
            send(fd, r.data(), r.size(), 0);
            char b[4096]; recv(fd, b, sizeof b, 0);
            return fd;
        }
        close(fd); usleep(50000);
    }
    return -1;
}
static bool gets_message(int fd) {
    pollfd p{fd, POLLIN, 0};
    if (poll(&p, 1, 2000) <= 0) return false;
    char b[256]; return recv(fd, b, sizeof b, 0) > 2;
}
int main() {
    hgdb::DebugServer s(false);
    s.set_on_message([](const std::string &, uint64_t) {});
    int port = 20000 + getpid() % 20000;
    std::thread t([&]() { s.run(port); });
    int a = conn(port); usleep(200000);
    int b = conn(port); usleep(200000);
    if (a < 0 || b < 0) _exit(3);
    s.add_to_topic("t", 0); s.add_to_topic("t", 1);   // the ids of the first two connections
    s.remove_from_topic("t", 0);
    s.send("hello", "t");
    bool ok = gets_message(b);
    printf("%d\n", ok);
    _exit(ok ? 0 : 1);
}
"""

@bug
def c03_odd_batch():
    plant_e2e("c03-odd-batch", "C03", [("src/debug.cc", "auto end = (i == (processor_count - 1)) ? bps.size() : (i + 1) * batch_size;", "auto end = (i + 1) * batch_size;")],
        "a batch of more than 32 breakpoints at one statement (many instances), an odd number of them, and the last instance being the one that holds",
        "the last breakpoint of an odd batch is not evaluated when the work is split between two threads", r"""
n = 35
insts = [[0, "top"]] + [[i + 1, f"top.u{i}"] for i in range(n)]
top = mod("dut", "top", [sig("clk", 1)], [mod(f"u{i}", "child", [sig("a"), sig("clk", 1)]) for i in range(n)])
bps = [bp(i, i + 1, 3, "a == 1", [var("a")]) for i in range(n)]
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], insts, bps)) as h:
    c = connect(h)
    add(c, 3)
    cmd(c, "continue")
    last = f"tb.dut.u{n - 1}.a"
    h.run([{last: 0}, {last: 1}])
    d = c.next_hit(3)
    if d is None or len(d["payload"]["instances"]) != 1 or d["payload"]["instances"][0]["instance_id"] != n:
        fail(d)
    c.request("command", {"command": "continue"})
    h.finish()
""")

@bug
def c06_hex_width():
    plant_e2e("c06-hex-width", "C06", [("src/debug.cc", "width = (width % 4 == 0) ? width / 4 : (width / 4 + 1);", "width = (width + 2) / 4;")],
        "hexadecimal display of a signal whose width is one more than a multiple of four, with the top bit clear",
        "hexadecimal values lose a leading digit for widths like 5 or 9", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a", 9), sig("b", 8), sig("c", 5)])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]], [bp(0, 0, 3, "", [var("a"), var("b"), var("c")])])) as h:
    c = connect(h)
    c.request("option-change", {"use_hex_str": True})
    add(c, 3)
    cmd(c, "continue")
    h.run([{"tb.dut.a": 5, "tb.dut.b": 6, "tb.dut.c": 7}])
    d = c.next_hit(3)
    loc = {k: v for k, v in d["payload"]["instances"][0]["local"].items()}
    if (loc["a"], loc["b"], loc["c"]) != ("0x005", "0x06", "0x07"):
        fail(loc)
    cmd(c, "continue")
    h.finish()
""")

@bug
def c24_ambiguous_write():
    plant_e2e("c24-ambiguous-write", "C24", [("src/debug.cc", "if (namespaces.size() == 1) {", "if (!namespaces.empty()) {")],
        "the design occurs twice and a write names an instance but no namespace",
        "a write that does not say which occurrence it means changes the first one", r"""
d1 = mod("dut1", "top", [sig("clk", 1), sig("a")])
d2 = mod("dut2", "top", [sig("clk", 1), sig("a")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [d1, d2])], [[0, "top"]], [bp(0, 0, 3, "", [var("a")])])) as h:
    c = connect(h)
    add(c, 3)
    cmd(c, "continue")
    h.run([{"tb.dut1.a": 5, "tb.dut2.a": 6}])
    d = c.next_hit(3)
    r = c.request("set-value", {"var_name": "a", "value": 9, "breakpoint_id": 0})
    if r["status"] != "error":
        fail(r)
    r = c.request("set-value", {"var_name": "a", "value": 9, "breakpoint_id": 0, "namespace_id": 1})
    if r["status"] != "success":
        fail(r)
    cmd(c, "continue")
    h.finish()
""")

@bug
def c09_type_share():
    plant_e2e("c09-type-share", "C09", [("src/monitor.cc", "if (var->handle == handle && var->type == watch_type) [[unlikely]] {", "if (var->handle == handle) [[unlikely]] {")],
        "one signal watched in two different ways",
        "a second watch on a signal reuses the first one whatever its kind, so its values never come", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]], [bp(0, 0, 3, "a == 99", [var("a")])])) as h:
    c = connect(h)
    add(c, 3)
    ids = [c.request("monitor", {"action_type": "add", "monitor_type": t, "var_name": "a", "breakpoint_id": 0})["payload"]["track_id"] for t in ("breakpoint", "changed")]
    if ids[0] == ids[1]:
        fail(ids)
    cmd(c, "continue")
    h.run([{"tb.dut.a": 5}])
    d = c.next_async(3)
    if d is None or d["type"] != "monitor" or d["payload"]["track_id"] != ids[1]:
        fail(d)
    h.finish()
""")

@bug
def c10_skip_same():
    plant_e2e("c10-skip-same", "C10", [("src/monitor.cc", "                watch_var->set_value(new_value);", "                if (new_value != old_value) watch_var->set_value(new_value);")],
        "a variable delayed by two or more edges whose value is the one it had that many edges ago",
        "a value that repeats is not recorded, so the delay grows", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]],
             [bp(0, 0, 3, "a > 90", [var("d", "a", type=1, depth=2)])])) as h:
    c = connect(h)
    add(c, 3)
    cmd(c, "continue")
    h.run([{"tb.dut.a": v} for v in (4, 5, 4, 7, 91)])
    d = c.next_hit(3)
    v = d["payload"]["instances"][0]["local"]["d"]
    print(v)
    if v != "4":
        fail(v)
    cmd(c, "continue")
    h.finish()
""")

@bug
def c04_step_condition():
    plant_e2e("c04-step-condition", "C04", [("src/scheduler.cc", 'std::string cond = bp_info->condition.empty() ? "1" : bp_info->condition;',
        'std::string cond = bp_info->condition.empty() || current_breakpoint_id_ == bp_ordering_.back() ? "1" : bp_info->condition;')],
        "stepping to the statement that is last in execution order while it is disabled",
        "a step stops at the last statement although its condition does not hold", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]],
             [bp(0, 0, 3, "", []), bp(1, 0, 4, "a == 7", []), bp(2, 0, 5, "a == 9", [])])) as h:
    c = connect(h)
    add(c, 3)
    cmd(c, "continue")
    h.run([{"tb.dut.a": 1}, {"tb.dut.a": 9}])
    seen = []
    for k in range(3):
        d = c.next_hit(3)
        seen.append((d["payload"]["time"], d["payload"]["line_num"]))
        cmd(c, "step_over")
    if [l for t, l in seen] != [3, 3, 5] or seen[0][0] == seen[1][0]:
        fail(seen)
""")

@bug
def c02_remove_column():
    plant_e2e("c02-remove-column", "C02", [("src/debug.cc", "        // remove\n        auto bps = db_->get_breakpoints(bp_info.filename, bp_info.line_num, bp_info.column_num);",
        "        // remove\n        auto bps = db_->get_breakpoints(bp_info.filename, bp_info.line_num, 0);")],
        "two statements on one line, breakpoints on both, one of them removed by its column",
        "removing the breakpoint at one column removes those of the whole line", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]],
             [bp(0, 0, 3, "", [], col=4), bp(1, 0, 3, "", [], col=8)])) as h:
    c = connect(h)
    add(c, 3)
    r = c.request("breakpoint", {"filename": "f.cc", "line_num": 3, "column_num": 8, "action": "remove"})
    info = c.request("debugger-info", {"command": "breakpoints"})
    print(info)
    if len(info["payload"]["breakpoints"]) != 1 or info["payload"]["breakpoints"][0]["id"] != 0:
        fail(info)
    cmd(c, "continue")
    h.finish()
""")

@bug
def c08_unsorted():
    plant_e2e("c08-unsorted", "C08", [("src/debug.cc", "            // sort the breakpoints\n            scheduler_->reorder_breakpoints();\n\n", "")],
        "a data breakpoint added for an assignment that precedes an inserted normal breakpoint in execution order",
        "data breakpoints are evaluated in the order of their insertion", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a"), sig("q")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]],
             [bp(0, 0, 3, "", [var("q")], assigned=[["q", 0, "q", ""]]), bp(1, 0, 4, "", [])])) as h:
    c = connect(h)
    add(c, 4)
    r = c.request("data-breakpoint", {"action": "add", "var_name": "q", "breakpoint-id": 0})
    assert r["status"] == "success", r
    cmd(c, "continue")
    h.run([{"tb.dut.q": 1}])
    seen = []
    for k in range(2):
        d = c.next_hit(3)
        seen.append(d["payload"]["line_num"] if d else None)
        if d:
            cmd(c, "continue")
    if seen != [3, 4]:
        fail(seen)
    h.finish()
""")

@bug
def c30_location_column():
    plant_e2e("c30-location-column", "C30", [("src/debug.cc", "auto col_num = column_num ? *column_num : 0;", "auto col_num = column_num && *column_num < line_num ? *column_num : 0;")],
        "a location request whose column is not smaller than its line number",
        "a location request with a column lists all statements of the line", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]],
             [bp(0, 0, 3, "", [], col=2), bp(1, 0, 3, "", [], col=8)])) as h:
    c = connect(h)
    for col in (2, 8):
        r = c.request("bp-location", {"filename": "f.cc", "line_num": 3, "column_num": col})
        if [b["column_num"] for b in r["payload"]] != [col]:
            fail(r)
    cmd(c, "continue")
    h.finish()
""")

@bug
def c17_slice_pad():
    plant("c17-slice-pad", "C17", [("src/rtl.cc", "    while (result.size() % 4) {", "    if (result.size() % 4) {")],
        "the text value of a slice whose width is one or two more than a multiple of four",
        "the hexadecimal text of a slice is wrong unless its width is 0 or 3 modulo 4", demo_cc=r"""
#include "rtl.hh"
#include <cstdio>
#include <string>
namespace hgdb { std::string get_slice(const std::string &value, const std::tuple<vpiHandle, uint32_t, uint32_t> &info); }
int main() {
    auto s = hgdb::get_slice(std::string("0000000011010110"), {nullptr, 5, 0});
    puts(s.c_str());
    return std::stoul(s, nullptr, 16) == 0x16 && hgdb::get_slice(std::string("0000000011010110"), {nullptr, 7, 4}) == "D" ? 0 : 1;
}
""")

@bug
def c18_topic_gone():
    plant("c18-topic-gone", "C18", [("src/server.cc", "        topics_[topic].erase(conn_id);", "        topics_.erase(topic);")],
        "two clients subscribed to a topic and one of them unsubscribes",
        "the remaining subscribers of a topic no longer get its messages", demo_cc=TOPIC)

@bug
def c20_stale_slice():
    plant("c20-stale-slice", "C20", [("tools/vcd/vcd.cc", "        var_def.slice = \"\";\n", "        if (var_def.width > 1) var_def.slice = \"\";\n")],
        "a one-bit signal declared without a range right after a signal with one",
        "a scalar signal is given the range of the signal declared before it", demo_cc=r"""
#include "vcd.hh"
#include <cstdio>
#include <fstream>
#include <vector>
int main() {
    { std::ofstream f("t.vcd"); f << "$scope module top $end\n$var reg 8 ! a [7:0] $end\n$var reg 1 % b $end\n$upscope $end\n$enddefinitions $end\n#0\n1%\n"; }
    hgdb::vcd::VCDParser p("t.vcd");
    std::vector<std::string> s;
    p.set_on_var_def([&](const hgdb::vcd::VCDVarDef &d) { s.push_back(d.slice); });
    if (!p.parse()) return 3;
    for (auto &x : s) printf("[%s]\n", x.c_str());
    return s.size() == 2 && s[0] == "[7:0]" && s[1].empty() ? 0 : 1;
}
""", extra="$repo/tools/vcd/vcd.cc")

@bug
def c14_index_type():
    plant("c14-index-type", "C14", [("src/db.cc", "                                // follow index_var's type\n                                new_var->type = indexed_var->type;",
        "                                // follow the assigned variable's type\n                                new_var->type = assign->vars[0]->type;")],
        "an assignment to an element whose index is a delayed variable, before the breakpoint in its scope",
        "the element assigned through a delayed index is a normal variable in the breakpoint's context", demo_cc=r"""
#include "db.hh"
#include <cstdio>
#include <fstream>
int main() {
    { std::ofstream f("t.json"); f << R"({"generator":"x","top":"top","table":[{"type":"module","name":"top","instances":[],"variables":[{"name":"i","value":"i","rtl":true}],
    "scope":[{"type":"block","filename":"f.cc","scope":[{"type":"assign","line":3,"variable":{"name":"m","value":"m","rtl":true},
      "indices":[{"var":{"name":"i","value":"i","rtl":true,"type":"delay"},"min":0,"max":7}]},{"type":"none","line":4}]}]}]})"; }
    hgdb::JSONSymbolTableProvider db("t.json");
    db.set_get_symbol_value([](const std::string &) { return std::optional<int64_t>(5); });
    auto bps = db.get_breakpoints("f.cc", 4, 0);
    if (bps.size() != 1) return 2;
    for (auto const &[c, v] : db.get_context_variables(bps[0].id)) {
        printf("%s = %s type %u\n", c.name.c_str(), v.value.c_str(), c.type);
        if (c.name == "m.5") return c.type == static_cast<uint32_t>(hgdb::SymbolTableProvider::VariableType::delay) ? 0 : 1;
    }
    return 1;
}
""")

@bug
def c33_column_one():
    plant("c33-column-one", "C33", [("bindings/python/hgdb/db.py", "        if self.col > 0:", "        if self.col > self.parent_col():"),
        ("bindings/python/hgdb/db.py", "    def type(self):\n        if len(self.__children) > 0:",
         "    def parent_col(self):\n        # statements of a block that has a column\n        return self.parent.col if self.parent is not None else 0\n\n    def type(self):\n        if len(self.__children) > 0:")],
        "a statement with a column inside a block that has the same or a later column",
        "the Python table writer leaves out the column of a statement that is not right of its block's column", demo_sh=PY_SH, files={"demo.py": r"""
import json, os, sys, tempfile, types
sys.modules["_hgdb"] = types.ModuleType("_hgdb")
sys.path.insert(0, os.path.join(os.getcwd(), "bindings", "python"))
for n in ("hgdb", "hgdb.client", "hgdb.symbol"):
    sys.modules.pop(n, None)
import importlib.util
spec = importlib.util.spec_from_file_location("hgdb_db", os.path.join(os.getcwd(), "bindings", "python", "hgdb", "db.py"))
db = importlib.util.module_from_spec(spec)
try:
    spec.loader.exec_module(db)
except ImportError:
    pkg = types.ModuleType("hgdbpkg")
    pkg._hgdb = sys.modules["_hgdb"]
    sys.modules["hgdbpkg"] = pkg
    sys.modules["hgdbpkg._hgdb"] = pkg._hgdb
    spec = importlib.util.spec_from_file_location("hgdbpkg.db", os.path.join(os.getcwd(), "bindings", "python", "hgdb", "db.py"))
    db = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(db)
p = os.path.join(sys.argv[1], "t.json")
with db.JSONSymbolTable("top", p) as t:
    m = db.Module("top")
    t.add_definition(m)
    b = m.add_child(db.Scope)
    b.filename, b.line, b.col = "f.py", 1, 5
    s = b.add_child(db.Scope)
    s.line, s.col = 2, 3
out = json.load(open(p))["table"][0]["scope"][0]["scope"][0]
print(out)
sys.exit(0 if out.get("column", out.get("col")) == 3 else 1)
"""})

@bug
def c23_malformed_stops():
    plant_e2e("c23-malformed-stops", "C23", [("src/debug.cc", "        if (fn_ln.size() != 2 && fn_ln.size() != 3) {\n            std::cerr << \"Invalid breakpoint expression \" << breakpoint_name << std::endl;\n            continue;",
        "        if (fn_ln.size() != 2 && fn_ln.size() != 3) {\n            std::cerr << \"Invalid breakpoint expression \" << breakpoint_name << std::endl;\n            break;")],
        "a malformed DEBUG_BREAKPOINT# without a line before a well-formed one",
        "the breakpoints after a malformed one in the environment are not set up", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
env = {"DEBUG_BREAKPOINT0": "f.cc:3", "DEBUG_BREAKPOINT1": "f.cc", "DEBUG_BREAKPOINT2": "f.cc:4"}
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]], [bp(0, 0, 3), bp(1, 0, 4)]), env=env) as h:
    c = connect(h)
    r = c.request("debugger-info", {"command": "breakpoints"})
    lines = sorted(b["line_num"] for b in r["payload"]["breakpoints"])
    if lines != [3, 4]:
        fail(r)
    cmd(c, "continue")
    h.finish()
""")

@bug
def c29_column():
    plant_e2e("c29-column", "C29", [("src/debug.cc", "db_->get_breakpoints(assert_info->filename, assert_info->line, assert_info->column);",
        "db_->get_breakpoints(assert_info->filename, assert_info->line, 0);")],
        "two statements on one line, the assertion at the second one",
        "the column of a failing assertion is ignored, the first statement of the line is shown", r"""
top = mod("dut", "top", [sig("clk", 1), sig("a")])
b = [bp(0, 0, 3, col=2), bp(1, 0, 3, col=9)]
with SimHost(EXE, cfg([mod("tb", "tb", [sig("clk", 1)], [top])], [[0, "top"]], b)) as h:
    c = connect(h)
    cmd(c, "continue")
    n = h.mark()
    h.cmd(c="assert", mod="tb.dut", file="f.cc", nums=[3, 9])
    h.wait("asserted", n)
    h.run([{}])
    d = c.next_hit(3)
    if d is None or d["payload"]["column_num"] != 9:
        fail(d)
    c.request("command", {"command": "continue"})
    h.finish()
""")

@bug
def c31_first_breakpoint():
    plant("c31-first-breakpoint", "C31", [("bindings/python/hgdb/client.py", """        if breakpoint_id is not None:
            payload["payload"]["breakpoint_id"] = breakpoint_id
        if instance_id is not None:
            payload["payload"]["instance_id"] = instance_id
        return await self.__send_check(payload, check_error=check_error)

    async def change_option""", """        if breakpoint_id:
            payload["payload"]["breakpoint_id"] = breakpoint_id
        if instance_id is not None:
            payload["payload"]["instance_id"] = instance_id
        return await self.__send_check(payload, check_error=check_error)

    async def change_option""")],
        "an evaluation in the scope of the breakpoint whose id is 0",
        "the Python client drops breakpoint id 0 from evaluation requests", demo_sh=PY_SH, files={"demo.py": r"""
import asyncio, importlib.util, json, os, sys, types
sys.modules.setdefault("websockets", types.ModuleType("websockets"))
ws = sys.modules["websockets"]
ws.exceptions = types.SimpleNamespace(ConnectionClosedError=ConnectionError)
ws.WebSocketClientProtocol = object
spec = importlib.util.spec_from_file_location("hgdb_client", os.path.join(os.getcwd(), "bindings", "python", "hgdb", "client.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
class Fake:
    sent = None
    async def send(self, text):
        self.sent = json.loads(text)
    async def recv(self):
        return json.dumps({"token": self.sent["token"], "status": "success", "payload": {}})
c = m.HGDBClient("ws://x", None)
c.ws = Fake()
for b in (3, 0):
    asyncio.run(c.evaluate("a", breakpoint_id=b))
    if c.ws.sent["payload"].get("breakpoint_id") != b:
        print("breakpoint", b, "is sent as", c.ws.sent)
        sys.exit(1)
"""})

VCD_SH = r"""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
inc=""
for h in algorithm cstdint functional iomanip map memory optional set sstream string tuple unordered_map unordered_set vector; do inc="$inc -include $h"; done
clang++-18 -std=c++20 -w -DVERSION_NUMBER=0 -DFMT_CONSTEVAL= $inc -I"$here" -Iinclude -Itools/vcd tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc tools/vcd/vcd.cc -o "$tmp/rw" -lfmt -lsqlite3 || exit 3
PYTHONDONTWRITEBYTECODE=1 timeout 100 python3 "$here/demo.py" "$tmp"
"""
VCD_PY = r"""
import os, sqlite3, subprocess, sys
t = sys.argv[1]
def rewrite(vcd, insts, rows):
    c = sqlite3.connect(t + "/t.db")
    c.executescript(SCHEMA)
    c.executemany("INSERT INTO instance VALUES (?, ?, '')", enumerate(insts))
    for i, (inst, value, name) in enumerate(rows):
        c.execute("INSERT INTO variable VALUES (?, ?, 1)", (i, value))
        c.execute("INSERT INTO generator_variable VALUES (?, ?, ?, '')", (name, insts.index(inst), i))
    c.commit()
    c.close()
    open(t + "/in.vcd", "w").write(vcd)
    r = subprocess.run([t + "/rw", "-i", t + "/in.vcd", "-d", t + "/t.db", "-o", t + "/out.vcd"], timeout=60)
    return r.returncode, open(t + "/out.vcd").read().split()
"""


def plant_vcd(id, edits, needs, breaks, demo):
    shim = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "shim")
    with open(os.path.join(os.path.dirname(shim), "..", "checks", "c27.py")) as f:
        schema = f.read().split('SCHEMA = """')[1].split('"""')[0]
    files = {"demo.py": 'SCHEMA = """' + schema + '"""' + VCD_PY + demo}
    for n in ("argparse/argparse.hpp", "sqlite_orm/sqlite_orm.h"):
        files[n] = os.path.join(shim, n)
    plant(id, "C34", edits, needs, breaks, demo_sh=VCD_SH, files=files)


@bug
def c34_shared_scope():
    plant_vcd("c34-shared-scope", [("tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc", """                if (child_scope->def.name == tokens[i]) {
                    scope = child_scope;
                    found = true;
                    break;
                }
            }
            if (!found) {""", """                if (child_scope->def.name == tokens[i] && child_scope->def.type == new_scope_name) {
                    scope = child_scope;
                    found = true;
                    break;
                }
            }
            if (!found) {""")],
        "a generator variable with a dotted name whose first part is an existing scope that is not a module (a begin block)",
        "a renamed signal goes to a second scope of the same name", r"""
V = ("$scope module tb $end $scope module dut $end $var wire 1 ! a $end $var wire 1 % c $end $scope %s io $end $var wire 1 & b $end $upscope $end $upscope $end "
     "$upscope $end $enddefinitions $end #0 1! 0&")
for kind in ("module", "begin"):
    rc, out = rewrite(V.replace("%s", kind), ["top"], [("top", "a", "io.x")])
    os.remove(t + "/t.db")
    if rc or out.count("io") != 1 or out[out.index("x") - 1] != "!":
        print(kind, rc, out)
        sys.exit(1)
""")

if __name__ == "__main__":
    for n in sys.argv[1:] or BUGS:
        BUGS[n]()
