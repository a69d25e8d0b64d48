// Exposes the public classes of hgdb as a line protocol: one JSON object in, one JSON object out.
#include <csignal>
#include <fstream>
#include <iostream>
#include <sstream>

#include "db.hh"
#include "eval.hh"
#include "json.hh"
#include "monitor.hh"
#include "proto.hh"
#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"
#include "rtl.hh"
#include "scheduler.hh"
#include "simvpi.hh"
#include "symbol.hh"
#include "thread.hh"
#include "util.hh"
#include "vcd.hh"

using namespace hgdb;
using JV = rapidjson::Value;
using W = rapidjson::Writer<rapidjson::StringBuffer>;

static std::string str(const JV &v) { return {v.GetString(), v.GetStringLength()}; }
static std::string S(const JV &v, const char *k, const std::string &d = "") { return v.HasMember(k) ? str(v[k]) : d; }
static uint64_t U(const JV &v, const char *k, uint64_t d = 0) { return v.HasMember(k) ? v[k].GetUint64() : d; }
static bool Bo(const JV &v, const char *k, bool d = false) { return v.HasMember(k) ? v[k].GetBool() : d; }
static std::string unhex(const std::string &h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
static std::string bytes(const JV &v, const char *k) {
    std::string h = std::string(k) + "_hex";
    return v.HasMember(h.c_str()) ? unhex(S(v, h.c_str())) : S(v, k);
}

static void ws(W &w, const std::string &s) { w.String(s.c_str(), s.size()); }
static void wk(W &w, const std::string &k, const std::string &s) {
    w.Key(k.c_str());
    ws(w, s);
}
static void wu(W &w, const char *k, uint64_t v) {
    w.Key(k);
    w.Uint64(v);
}
static void wb(W &w, const char *k, bool v) {
    w.Key(k);
    w.Bool(v);
}
template <typename T>
static void wopt(W &w, const char *k, const std::optional<T> &v) {
    w.Key(k);
    if (!v)
        w.Null();
    else if constexpr (std::is_same_v<T, std::string>)
        ws(w, *v);
    else if constexpr (std::is_signed_v<T>)
        w.Int64(*v);
    else
        w.Uint64(*v);
}
template <typename T>
static void wstrs(W &w, const char *k, const T &v) {
    w.Key(k);
    w.StartArray();
    for (auto const &s : v) ws(w, s);
    w.EndArray();
}
static void wsmap(W &w, const char *k, const std::map<std::string, std::string> &m) {
    w.Key(k);
    w.StartObject();
    for (auto const &[a, b] : m) wk(w, a, b);
    w.EndObject();
}

// ---------------------------------------------------------------- expressions
static void op_expr(const JV &d, W &w) {
    auto text = bytes(d, "text");
    DebugExpression e(text);
    wb(w, "correct", e.correct());
    wk(w, "expression", e.expression());
    if (!e.correct()) {
        // evaluating a refused expression must be harmless
        w.Key("value");
        w.Int64(e.eval());
        return;
    }
    std::set<std::string> sorted(e.symbols().begin(), e.symbols().end());
    wstrs(w, "symbols", sorted);
    wu(w, "size", e.size());
    wb(w, "empty", e.empty());
    bool found = true;
    for (auto const &s : sorted) found = found && e.find(s) != e.end();
    wb(w, "found", found && e.find("no such symbol") == e.end());
    if (d.HasMember("static")) {
        std::unordered_map<std::string, int64_t> st;
        for (auto const &m : d["static"].GetObject()) st.emplace(str(m.name), m.value.GetInt64());
        e.set_static_values(st);
        auto r = e.get_required_symbols();
        wstrs(w, "required", std::set<std::string>(r.begin(), r.end()));
    }
    w.Key("values");
    w.StartArray();
    for (auto const &env : d["envs"].GetArray()) {
        bool bulk = false;
        std::unordered_map<std::string, int64_t> vs;
        for (auto const &m : env.GetObject()) vs.emplace(str(m.name), m.value.GetInt64());
        bulk = vs.size() % 2;
        if (bulk)
            e.set_values(vs);
        else
            for (auto const &[n, v] : vs) e.set_value(n, v);
        w.Int64(e.eval());
    }
    w.EndArray();
}

// ---------------------------------------------------------------- symbol tables
static std::map<int, std::unique_ptr<SymbolTableProvider>> tables;
static int table_count = 0;

static void wbp(W &w, const BreakPoint &b) {
    w.StartObject();
    wu(w, "id", b.id);
    w.Key("instance_id");
    if (b.instance_id)
        w.Uint64(*b.instance_id);
    else
        w.Null();
    wk(w, "filename", b.filename);
    wu(w, "line", b.line_num);
    wu(w, "column", b.column_num);
    wk(w, "condition", b.condition);
    wk(w, "trigger", b.trigger);
    w.EndObject();
}
static void wbps(W &w, const std::vector<BreakPoint> &v) {
    w.StartArray();
    for (auto const &b : v) wbp(w, b);
    w.EndArray();
}
static void wctx(W &w, const std::vector<SymbolTableProvider::ContextVariableInfo> &v) {
    w.StartArray();
    for (auto const &[c, x] : v) {
        w.StartObject();
        wk(w, "name", c.name);
        wk(w, "value", x.value);
        wb(w, "rtl", x.is_rtl);
        if (c.breakpoint_id) wu(w, "bp", *c.breakpoint_id);
        wu(w, "type", c.type);
        wu(w, "depth", c.depth);
        w.EndObject();
    }
    w.EndArray();
}
static void op_table(const JV &d, W &w) {
    auto q = S(d, "q");
    if (q == "parse" || q == "load" || q == "construct") {
        std::unique_ptr<SymbolTableProvider> t;
        bool ok = true;
        if (q == "parse") {
            auto j = std::make_unique<JSONSymbolTableProvider>();
            ok = j->parse(bytes(d, "content"));
            t = std::move(j);
        } else if (q == "construct") {
            t = std::make_unique<JSONSymbolTableProvider>(S(d, "file"));
        } else {
            t = create_symbol_table(S(d, "file"));
        }
        wb(w, "null", t == nullptr);
        wb(w, "ok", ok);
        wb(w, "bad", !t || t->bad());
        if (t) {
            tables[table_count] = std::move(t);
            wu(w, "t", table_count++);
        }
        return;
    }
    if (q == "valid") {
        std::stringstream ss(bytes(d, "content"));
        wb(w, "r", JSONSymbolTableProvider::valid_json(ss));
        return;
    }
    int id = (int)U(d, "t");
    if (q == "free") {
        tables.erase(id);
        return;
    }
    auto &t = *tables.at(id);
    if (q == "map") {
        std::map<std::string, std::string> m;
        for (auto const &x : d["m"].GetObject()) m.emplace(str(x.name), str(x.value));
        t.set_src_mapping(m);
        return;
    }
    w.Key("r");
    if (q == "bps3") {
        wbps(w, t.get_breakpoints(S(d, "file"), (uint32_t)U(d, "line"), (uint32_t)U(d, "col")));
    } else if (q == "bps2") {
        wbps(w, t.get_breakpoints(S(d, "file"), (uint32_t)U(d, "line")));
    } else if (q == "bps1") {
        wbps(w, t.get_breakpoints(S(d, "file")));
    } else if (q == "bp") {
        auto b = t.get_breakpoint((uint32_t)U(d, "id"));
        if (b)
            wbp(w, *b);
        else
            w.Null();
    } else if (q == "inst_name_bp" || q == "inst_name") {
        auto r = q == "inst_name" ? t.get_instance_name((uint32_t)U(d, "id")) : t.get_instance_name_from_bp((uint32_t)U(d, "id"));
        if (r)
            ws(w, *r);
        else
            w.Null();
    } else if (q == "inst_id" || q == "inst_id_bp") {
        auto r = q == "inst_id" ? t.get_instance_id(S(d, "name")) : t.get_instance_id(U(d, "id"));
        if (r)
            w.Uint64(*r);
        else
            w.Null();
    } else if (q == "files" || q == "inst_names" || q == "ann" || q == "arrays") {
        auto v = q == "files" ? t.get_filenames()
                 : q == "inst_names" ? t.get_instance_names()
                 : q == "ann" ? t.get_annotation_values(S(d, "name"))
                              : t.get_all_array_names();
        w.StartArray();
        for (auto const &s : v) ws(w, s);
        w.EndArray();
    } else if (q == "ctx") {
        wctx(w, t.get_context_variables((uint32_t)U(d, "id")));
    } else if (q == "delayed") {
        wctx(w, t.get_context_delayed_variables((uint32_t)U(d, "id")));
    } else if (q == "gen") {
        w.StartArray();
        for (auto const &[c, x] : t.get_generator_variable((uint32_t)U(d, "id"))) {
            w.StartObject();
            wk(w, "name", c.name);
            wk(w, "value", x.value);
            wb(w, "rtl", x.is_rtl);
            if (c.instance_id) wu(w, "inst", *c.instance_id);
            w.EndObject();
        }
        w.EndArray();
    } else if (q == "static") {
        auto m = t.get_context_static_values((uint32_t)U(d, "id"));
        w.StartObject();
        for (auto const &[k, v] : std::map<std::string, int64_t>(m.begin(), m.end())) {
            w.Key(k.c_str(), k.size());
            w.Int64(v);
        }
        w.EndObject();
    } else if (q == "order") {
        w.StartArray();
        for (auto i : t.execution_bp_orders()) w.Uint64(i);
        w.EndArray();
    } else if (q == "assigned") {
        w.StartArray();
        for (auto const &[i, v, c] : t.get_assigned_breakpoints(S(d, "name"), (uint32_t)U(d, "id"))) {
            w.StartArray();
            w.Uint64(i);
            ws(w, v);
            ws(w, c);
            w.EndArray();
        }
        w.EndArray();
    } else if (q == "res_bp" || q == "res_inst") {
        auto r = q == "res_bp" ? t.resolve_scoped_name_breakpoint(S(d, "name"), U(d, "id"))
                               : t.resolve_scoped_name_instance(S(d, "name"), U(d, "id"));
        if (r)
            ws(w, *r);
        else
            w.Null();
    } else if (q == "to_db" || q == "to_client") {
        ws(w, q == "to_db" ? t.resolve_filename_to_db(S(d, "file")) : t.resolve_filename_to_client(S(d, "file")));
    } else if (q == "symval") {
        // array values are looked up through this function
        t.set_get_symbol_value([](const std::string &name) -> std::optional<int64_t> {
            int64_t n = 0;
            for (auto const c : name) n += static_cast<unsigned char>(c);
            if (n % 11 == 0) return std::nullopt;
            return n % 5;
        });
        w.Null();
    } else {
        w.String("unknown query");
    }
}

// ---------------------------------------------------------------- requests and responses
static void op_request(const JV &d, W &w) {
    auto r = Request::parse_request(bytes(d, "text"));
    wb(w, "error", r->status() == status_code::error);
    wb(w, "has_reason", !r->error_reason().empty());
    wk(w, "type", to_string(r->type()));
    wk(w, "token", r->get_token());
    if (r->status() == status_code::error) return;
    if (auto *x = dynamic_cast<BreakPointRequest *>(r.get())) {
        wu(w, "id", r->type() == RequestType::breakpoint_id ? x->breakpoint().id : 0);
        if (r->type() == RequestType::breakpoint) {
            wk(w, "filename", x->breakpoint().filename);
            wu(w, "line_num", x->breakpoint().line_num);
            wu(w, "column_num", x->breakpoint().column_num);
        }
        wk(w, "condition", x->breakpoint().condition);
        wk(w, "action", x->bp_action() == BreakPointRequest::action::add ? "add" : "remove");
    } else if (auto *x = dynamic_cast<ConnectionRequest *>(r.get())) {
        wk(w, "db_filename", x->db_filename());
        wsmap(w, "path-mapping", x->path_mapping());
    } else if (auto *x = dynamic_cast<BreakPointLocationRequest *>(r.get())) {
        wk(w, "filename", x->filename());
        wopt(w, "line_num", x->line_num());
        wopt(w, "column_num", x->column_num());
    } else if (auto *x = dynamic_cast<CommandRequest *>(r.get())) {
        static const char *names[] = {"continue", "step_over", "step_back", "stop", "reverse_continue", "jump"};
        wk(w, "command", names[(int)x->command_type()]);
        wu(w, "time", x->time());
    } else if (auto *x = dynamic_cast<DebuggerInformationRequest *>(r.get())) {
        static const char *names[] = {"breakpoints", "status", "options", "design", "filename"};
        wk(w, "command", names[(int)x->command_type()]);
    } else if (auto *x = dynamic_cast<PathMappingRequest *>(r.get())) {
        wsmap(w, "path-mapping", x->path_mapping());
    } else if (auto *x = dynamic_cast<EvaluationRequest *>(r.get())) {
        wopt(w, "instance_id", x->instance_id());
        wopt(w, "breakpoint_id", x->breakpoint_id());
        wopt(w, "namespace_id", x->namespace_id());
        wk(w, "expression", x->expression());
    } else if (auto *x = dynamic_cast<OptionChangeRequest *>(r.get())) {
        w.Key("options");
        w.StartObject();
        for (auto const &[k, v] : x->bool_values()) wb(w, k.c_str(), v);
        for (auto const &[k, v] : x->int_values()) {
            w.Key(k.c_str());
            w.Int64(v);
        }
        for (auto const &[k, v] : x->str_values()) wk(w, k, v);
        w.EndObject();
    } else if (auto *x = dynamic_cast<MonitorRequest *>(r.get())) {
        static const char *names[] = {"breakpoint", "clock_edge", "changed", "data", "delay_clock_edge"};
        bool add = x->action_type() == MonitorRequest::ActionType::add;
        wk(w, "action_type", add ? "add" : "remove");
        if (add) {
            wk(w, "monitor_type", names[(int)x->monitor_type()]);
            wk(w, "var_name", x->var_name());
            wopt(w, "breakpoint_id", x->breakpoint_id());
            wopt(w, "instance_id", x->instance_id());
        } else {
            wu(w, "track_id", x->track_id());
        }
        wopt(w, "namespace_id", x->namespace_id());
    } else if (auto *x = dynamic_cast<SetValueRequest *>(r.get())) {
        w.Key("value");
        w.Int64(x->value());
        wk(w, "var_name", x->var_name());
        wopt(w, "breakpoint_id", x->breakpoint_id());
        wopt(w, "instance_id", x->instance_id());
        wopt(w, "namespace_id", x->namespace_id());
    } else if (auto *x = dynamic_cast<DataBreakpointRequest *>(r.get())) {
        static const char *names[] = {"add", "clear", "remove", "info"};
        wk(w, "action", names[(int)x->action()]);
        wopt(w, "namespace_id", x->namespace_id());
        if (x->action() != DataBreakpointRequest::Action::clear) wu(w, "breakpoint-id", x->breakpoint_id());
        if (x->action() == DataBreakpointRequest::Action::add || x->action() == DataBreakpointRequest::Action::info) {
            wk(w, "var_name", x->var_name());
            wk(w, "condition", x->condition());
        }
    }
}

static void op_response(const JV &d, W &w) {
    auto kind = S(d, "kind");
    bool pretty = Bo(d, "pretty");
    auto token = S(d, "token");
    auto fin = [&](Response &r) {
        if (!token.empty()) r.set_token(token);
        wk(w, "text", r.str(pretty));
        wk(w, "token_", r.token());
    };
    if (kind == "generic") {
        static const std::map<std::string, RequestType> types = {{"error", RequestType::error},
                                                                 {"breakpoint", RequestType::breakpoint},
                                                                 {"breakpoint-id", RequestType::breakpoint_id},
                                                                 {"connection", RequestType::connection},
                                                                 {"bp-location", RequestType::bp_location},
                                                                 {"command", RequestType::command},
                                                                 {"debugger-info", RequestType::debugger_info},
                                                                 {"path-mapping", RequestType::path_mapping},
                                                                 {"evaluation", RequestType::evaluation},
                                                                 {"option-change", RequestType::option_change},
                                                                 {"monitor", RequestType::monitor},
                                                                 {"set-value", RequestType::set_value},
                                                                 {"symbol", RequestType::symbol},
                                                                 {"data-breakpoint", RequestType::data_breakpoint}};
        GenericResponse r(Bo(d, "ok") ? status_code::success : status_code::error, types.at(S(d, "req")), S(d, "reason"));
        for (auto const &m : d["values"].GetObject()) {
            if (m.value.IsBool())
                r.set_value(str(m.name), m.value.GetBool());
            else if (m.value.IsInt64())
                r.set_value(str(m.name), m.value.GetInt64());
            else
                r.set_value(str(m.name), str(m.value));
        }
        fin(r);
    } else if (kind == "generic_req") {
        // a response made for a parsed request carries its token and type
        auto req = Request::parse_request(S(d, "request"));
        GenericResponse r(Bo(d, "ok") ? status_code::success : status_code::error, *req, S(d, "reason"));
        fin(r);
    } else if (kind == "location") {
        std::vector<BreakPoint> v;
        std::vector<BreakPoint *> p;
        for (auto const &b : d["bps"].GetArray()) {
            BreakPoint x;
            x.id = (uint32_t)U(b, "id");
            x.filename = S(b, "filename");
            x.line_num = (uint32_t)U(b, "line_num");
            x.column_num = (uint32_t)U(b, "column_num");
            v.emplace_back(std::move(x));
        }
        for (auto &b : v) p.emplace_back(&b);
        BreakPointLocationResponse r(p);
        fin(r);
    } else if (kind == "breakpoint") {
        BreakPointResponse r(U(d, "time"), S(d, "filename"), U(d, "line_num"), U(d, "column_num"));
        for (auto const &s : d["scopes"].GetArray()) {
            BreakPointResponse::Scope sc(U(s, "instance_id"), S(s, "instance_name"), U(s, "breakpoint_id"), U(s, "namespace_id"));
            sc.bp_type = S(s, "bp_type");
            for (auto const &m : s["local"].GetArray()) sc.add_local_value(str(m[0]), str(m[1]));
            for (auto const &m : s["generator"].GetArray()) sc.add_generator_value(str(m[0]), str(m[1]));
            r.add_scope(sc);
        }
        fin(r);
    } else if (kind == "info_status") {
        DebuggerInformationResponse r(S(d, "status"));
        fin(r);
    } else if (kind == "info_filenames") {
        std::vector<std::string> v;
        for (auto const &s : d["filenames"].GetArray()) v.emplace_back(str(s));
        DebuggerInformationResponse r(v);
        fin(r);
    } else if (kind == "info_options") {
        std::map<std::string, std::string> m;
        for (auto const &s : d["options"].GetObject()) m.emplace(str(s.name), str(s.value));
        DebuggerInformationResponse r(m);
        fin(r);
    } else if (kind == "info_design") {
        std::map<std::string, std::map<std::string, uint32_t>> m;
        for (auto const &s : d["design"].GetObject())
            for (auto const &x : s.value.GetObject()) m[str(s.name)][str(x.name)] = x.value.GetUint();
        DebuggerInformationResponse r(m);
        fin(r);
    } else if (kind == "info_breakpoints") {
        std::vector<std::unique_ptr<DebugBreakPoint>> v;
        std::vector<const DebugBreakPoint *> p;
        for (auto const &b : d["bps"].GetArray()) {
            auto x = std::make_unique<DebugBreakPoint>();
            x->id = (uint32_t)U(b, "id");
            x->filename = S(b, "filename");
            x->line_num = (uint32_t)U(b, "line_num");
            x->column_num = (uint32_t)U(b, "column_num");
            x->target_rtl_var_name = S(b, "var");
            x->type = static_cast<DebugBreakPoint::Type>(U(b, "type"));
            p.emplace_back(x.get());
            v.emplace_back(std::move(x));
        }
        DebuggerInformationResponse r(p);
        fin(r);
    } else if (kind == "evaluation") {
        EvaluationResponse r(S(d, "result"));
        fin(r);
    } else if (kind == "monitor") {
        MonitorResponse r(U(d, "track_id"), U(d, "namespace_id"), S(d, "value"));
        fin(r);
    }
}

// ---------------------------------------------------------------- symbol requests and responses on the wire
static void op_symreq(const JV &d, W &w) {
    SymbolRequest r(static_cast<SymbolRequest::request_type>(U(d, "type")));
    r.instance_id = U(d, "instance_id");
    r.breakpoint_id = U(d, "breakpoint_id");
    r.filename = S(d, "filename");
    r.line_num = (uint32_t)U(d, "line_num");
    r.column_num = (uint32_t)U(d, "column_num");
    r.instance_name = S(d, "instance_name");
    r.name = S(d, "name");
    auto s = r.str();
    wk(w, "text", s);
}

// ---------------------------------------------------------------- VCD
static void op_vcd(const JV &d, W &w) {
    std::stringstream ss(bytes(d, "text"));
    std::unique_ptr<vcd::VCDParser> p;
    if (d.HasMember("file"))
        p = std::make_unique<vcd::VCDParser>(S(d, "file"));
    else
        p = std::make_unique<vcd::VCDParser>(ss);
    w.Key("ev");
    w.StartArray();
    uint64_t n = 0;
    auto lim = [&n]() {
        if (++n > 200000) {
            // reporting without end is a hang
            fprintf(stderr, "VCD reader reports without end\n");
            abort();
        }
    };
    if (!Bo(d, "silent")) {
        p->set_on_meta_info([&](const vcd::VCDMetaInfo &m) {
            lim();
            w.StartArray();
            w.String("meta");
            w.Int((int)m.type);
            ws(w, m.value);
            w.EndArray();
        });
        p->set_on_enter_scope([&](const vcd::VCDScopeDef &s) {
            lim();
            w.StartArray();
            w.String("scope");
            ws(w, s.type);
            ws(w, s.name);
            w.EndArray();
        });
        p->set_exit_scope([&]() {
            lim();
            w.StartArray();
            w.String("up");
            w.EndArray();
        });
        p->set_on_var_def([&](const vcd::VCDVarDef &v) {
            lim();
            w.StartArray();
            w.String("var");
            ws(w, v.type);
            w.Uint64(v.width);
            ws(w, v.identifier);
            ws(w, v.name);
            ws(w, v.slice);
            w.EndArray();
        });
        p->set_on_definition_finished([&]() {
            lim();
            w.StartArray();
            w.String("enddef");
            w.EndArray();
        });
        p->set_on_time_change([&](uint64_t t) {
            lim();
            w.StartArray();
            w.String("time");
            w.Uint64(t);
            w.EndArray();
        });
        p->set_on_dump_var_action([&](const std::string &s) {
            lim();
            w.StartArray();
            w.String("dump");
            ws(w, s);
            w.EndArray();
        });
        p->set_value_change([&](const vcd::VCDValue &v) {
            lim();
            w.StartArray();
            w.String("val");
            w.Uint64(v.time);
            ws(w, v.identifier);
            ws(w, v.value);
            w.Bool(v.is_event);
            w.EndArray();
        });
    }
    bool r = p->parse();
    w.EndArray();
    wb(w, "r", r);
    wb(w, "error", p->has_error());
    wk(w, "message", p->error_message());
}

// ---------------------------------------------------------------- the design behind the simulator
struct Rtl {
    std::shared_ptr<sim::SimVPI> vpi;
    std::unique_ptr<RTLSimulatorClient> c;
    std::unique_ptr<Monitor> mon;
    uintptr_t next_handle = 0x7000000000000000ULL;
};
static std::map<int, std::unique_ptr<Rtl>> rtls;
static int rtl_count = 0;
static uint64_t n_cb1 = 0, n_cb2 = 0;
static int cb1(p_cb_data) {
    n_cb1++;
    return 0;
}
static int cb2(p_cb_data) {
    n_cb2++;
    return 0;
}
static void wmap(W &w, const std::vector<RTLSimulatorClient::IPMapping> &m) {
    w.StartArray();
    for (auto const &[a, b] : m) {
        w.StartArray();
        ws(w, a);
        ws(w, b);
        w.EndArray();
    }
    w.EndArray();
}
static void op_rtl(const JV &d, W &w) {
    auto q = S(d, "q");
    if (q == "new") {
        auto r = std::make_unique<Rtl>();
        r->vpi = std::make_shared<sim::SimVPI>(d["cfg"]);
        r->c = std::make_unique<RTLSimulatorClient>(r->vpi);
        r->mon = std::make_unique<Monitor>(r->c.get());
        rtls[rtl_count] = std::move(r);
        wu(w, "t", rtl_count++);
        return;
    }
    int id = (int)U(d, "t");
    if (q == "free") {
        auto vpi = rtls.at(id)->vpi;
        rtls.erase(id);
        w.Key("cbs");
        ws(w, vpi->cb_list());
        wu(w, "bad", vpi->n_bad.load());
        return;
    }
    auto &r = *rtls.at(id);
    auto &c = *r.c;
    w.Key("r");
    auto name = S(d, "name");
    if (q == "mapping") {
        std::vector<std::string> v;
        for (auto const &s : d["names"].GetArray()) v.emplace_back(str(s));
        wmap(w, c.compute_instance_mapping(v, Bo(d, "use_def")));
    } else if (q == "set_mapping") {
        c.set_mapping(S(d, "top"), S(d, "prefix"));
        w.Null();
    } else if (q == "get_mapping") {
        wmap(w, {c.get_mapping()});
    } else if (q == "valid") {
        w.Bool(c.is_valid_signal(name));
    } else if (q == "value") {
        auto v = c.get_value(name);
        if (v)
            w.Int64(*v);
        else
            w.Null();
    } else if (q == "hvalue") {
        auto *h = c.get_handle(name);
        auto v = h ? c.get_value(h) : std::nullopt;
        if (v)
            w.Int64(*v);
        else
            w.Null();
    } else if (q == "tokens") {
        std::vector<std::string> v;
        for (auto const &s : d["tokens"].GetArray()) v.emplace_back(str(s));
        auto *h = c.get_handle(v);
        auto x = h ? c.get_value(h) : std::nullopt;
        if (x)
            w.Int64(*x);
        else
            w.Null();
    } else if (q == "strvalue" || q == "hstrvalue") {
        auto v = q == "strvalue" ? c.get_str_value(name) : [&]() -> std::optional<std::string> {
            auto *h = c.get_handle(name);
            return h ? c.get_str_value(h) : std::nullopt;
        }();
        if (v)
            ws(w, *v);
        else
            w.Null();
    } else if (q == "width") {
        auto *h = c.get_handle(name);
        auto v = h ? c.get_signal_width(h) : std::nullopt;
        if (v)
            w.Uint(*v);
        else
            w.Null();
    } else if (q == "has_handle") {
        w.Bool(c.get_handle(name) != nullptr);
    } else if (q == "same_handle") {
        w.Bool(c.get_handle(name) == c.get_handle(S(d, "other")));
    } else if (q == "hname") {
        auto *h = c.get_handle(name);
        if (h)
            ws(w, c.get_full_name(h));
        else
            w.Null();
    } else if (q == "set") {
        w.Bool(c.set_value(name, d["v"].GetInt64()));
    } else if (q == "hset") {
        auto *h = c.get_handle(name);
        w.Bool(h && c.set_value(h, d["v"].GetInt64()));
    } else if (q == "signals") {
        auto m = c.get_module_signals(name);
        std::set<std::string> s;
        bool ok = true;
        for (auto const &[n, h] : m) {
            s.emplace(n);
            auto it = r.vpi->by_name.find(S(d, "full", name) + "." + n);
            ok = ok && it != r.vpi->by_name.end() && reinterpret_cast<vpiHandle>(it->second) == h;
        }
        w.StartObject();
        wstrs(w, "names", s);
        wb(w, "handles", ok);
        w.EndObject();
    } else if (q == "full") {
        ws(w, c.get_full_name(name));
    } else if (q == "abs") {
        w.Bool(c.is_absolute_path(name));
    } else if (q == "info") {
        w.StartObject();
        wstrs(w, "argv", c.get_argv());
        wk(w, "name", c.get_simulator_name());
        wk(w, "version", c.get_simulator_version());
        wb(w, "verilator", c.is_verilator());
        wu(w, "time", c.get_simulation_time());
        w.EndObject();
    } else if (q == "settime") {
        r.vpi->time = U(d, "time");
        w.Null();
    } else if (q == "clocks") {
        auto v = c.get_clocks_from_design();
        w.StartArray();
        for (auto const &s : v) ws(w, s);
        w.EndArray();
    } else if (q == "resolve") {
        w.StartArray();
        for (auto const &[a, b] : c.resolve_rtl_variable(S(d, "front"), name)) {
            w.StartArray();
            ws(w, a);
            ws(w, b);
            w.EndArray();
        }
        w.EndArray();
    } else if (q == "drive") {
        r.vpi->drive(r.vpi->by_name.at(name), d["v"].GetInt64());
        w.Null();
    } else if (q == "add_cb") {
        vpiHandle o = name.empty() ? nullptr : c.get_handle(name);
        w.Bool(c.add_call_back(S(d, "cb"), (int)U(d, "reason"), U(d, "fn") == 1 ? cb1 : cb2, o, nullptr) != nullptr);
    } else if (q == "rm_cb") {
        c.remove_call_back(S(d, "cb"));
        w.Null();
    } else if (q == "cb_names") {
        auto s = c.callback_names();
        w.StartArray();
        for (auto const &x : std::set<std::string>(s.begin(), s.end())) ws(w, x);
        w.EndArray();
    } else if (q == "cb_counts") {
        w.StartArray();
        w.Uint64(n_cb1);
        w.Uint64(n_cb2);
        w.EndArray();
        n_cb1 = n_cb2 = 0;
    } else if (q == "cbs") {
        ws(w, r.vpi->cb_list());
    } else if (q == "monitor_signals") {
        std::vector<std::string> v;
        for (auto const &s : d["names"].GetArray()) v.emplace_back(str(s));
        w.Bool(c.monitor_signals(v, cb1, nullptr));
    } else if (q == "bad") {
        w.Uint64(r.vpi->n_bad.load());
    } else if (q == "allocator") {
        c.set_vpi_allocator([&r]() { return reinterpret_cast<vpiHandle>(r.next_handle++); });
        w.Null();
    } else if (q == "finish") {
        c.finish_sim(RTLSimulatorClient::finish_value::nothing);
        w.Null();
    } else if (q == "rewind") {
        bool called = false;
        r.vpi->can_rewind = Bo(d, "can");
        r.vpi->on_rewind = [&](uint64_t t) {
            called = t == U(d, "time");
            return true;
        };
        std::vector<vpiHandle> hs;
        if (d.HasMember("clk")) hs.emplace_back(c.get_handle(S(d, "clk")));
        bool ok = c.rewind(U(d, "time"), hs);
        w.StartArray();
        w.Bool(ok);
        w.Bool(called);
        w.EndArray();
    }
    // monitors on the same design
    else if (q == "m_add") {
        static const std::map<std::string, Monitor::WatchType> types = {{"breakpoint", Monitor::WatchType::breakpoint},
                                                                        {"clock_edge", Monitor::WatchType::clock_edge},
                                                                        {"changed", Monitor::WatchType::changed},
                                                                        {"data", Monitor::WatchType::data}};
        w.Uint64(r.mon->add_monitor_variable(name, types.at(S(d, "type"))));
    } else if (q == "m_delay") {
        std::optional<int64_t> v;
        if (d.HasMember("v")) v = d["v"].GetInt64();
        w.Uint64(r.mon->add_monitor_variable(name, (uint32_t)U(d, "depth"), v));
    } else if (q == "m_rm") {
        r.mon->remove_monitor_variable(U(d, "id"));
        w.Null();
    } else if (q == "m_get") {
        w.StartArray();
        auto vals = r.mon->get_watched_values(static_cast<Monitor::WatchType>(U(d, "type")));
        std::sort(vals.begin(), vals.end(), [](auto const &a, auto const &b) { return a.first < b.first; });
        for (auto const &[i, v] : vals) {
            w.StartArray();
            w.Uint64(i);
            if (v)
                w.Int64(*v);
            else
                w.Null();
            w.EndArray();
        }
        w.EndArray();
    } else if (q == "m_changed") {
        auto [ch, v] = r.mon->var_changed(U(d, "id"));
        w.StartArray();
        w.Bool(ch);
        if (v)
            w.Int64(*v);
        else
            w.Null();
        w.EndArray();
    } else if (q == "m_num") {
        w.Uint64(r.mon->num_watches(name, static_cast<Monitor::WatchType>(U(d, "type"))));
    } else if (q == "m_is") {
        auto *h = c.get_handle(name);
        auto v = r.mon->is_monitored(h, static_cast<Monitor::WatchType>(U(d, "type")));
        if (v)
            w.Uint64(*v);
        else
            w.Null();
    } else if (q == "m_empty") {
        w.Bool(r.mon->empty());
    } else if (q == "m_cond") {
        // the watch is enabled only while the named signal is not zero
        auto n = S(d, "cond");
        r.mon->set_monitor_variable_condition(U(d, "id"), [&c, n]() { return c.get_value(n).value_or(0) != 0; });
        w.Null();
    } else if (q == "m_ptr") {
        std::unordered_set<std::string> v;
        for (auto const &s : d["names"].GetArray()) v.emplace(str(s));
        auto p = r.mon->get_watched_value_ptr(v, static_cast<Monitor::WatchType>(U(d, "type")));
        if (p && *p)
            w.Int64(**p);
        else
            w.Null();
    } else {
        w.String("unknown query");
    }
}

// ---------------------------------------------------------------- the writer library
template <typename P>
static void build_scope(const JV &s, P *parent);

template <typename T>
static void attrs(const JV &s, T *n) {
    if (s.HasMember("filename")) n->filename = S(s, "filename");
    if (s.HasMember("line") && !n->line_num) n->line_num = (uint32_t)U(s, "line");
    if (s.HasMember("column")) n->column_num = (uint32_t)U(s, "column");
    if (s.HasMember("condition")) n->condition = S(s, "condition");
}
static json::Variable var(const JV &v) { return {.name = S(v, "name"), .value = S(v, "value"), .rtl = Bo(v, "rtl")}; }

template <typename P>
static void build_scope(const JV &s, P *parent) {
    auto type = S(s, "type");
    if (type == "block" || type == "none") {
        json::Scope<> *b;
        if (s.HasMember("line"))
            b = parent->template create_scope<json::Scope<>>((uint32_t)U(s, "line"));
        else
            b = parent->template create_scope<json::Scope<>>();
        attrs(s, b);
        if (s.HasMember("scope"))
            for (auto const &c : s["scope"].GetArray()) build_scope(c, b);
    } else {
        auto *v = parent->template create_scope<json::VarStmt>(var(s["variable"]), U(s, "line"), type == "decl");
        attrs(s, v);
    }
}
static void op_writer(const JV &d, W &w) {
    json::SymbolTable t(S(d, "generator"));
    std::map<std::string, json::Module *> mods;
    std::vector<json::Module *> list;
    for (auto const &m : d["modules"].GetArray()) {
        auto *x = t.add_module(S(m, "name"));
        mods[S(m, "name")] = x;
        list.emplace_back(x);
    }
    size_t i = 0;
    for (auto const &m : d["modules"].GetArray()) {
        auto *x = list[i++];
        attrs(m, x);
        for (auto const &s : m["scope"].GetArray()) build_scope(s, x);
        for (auto const &v : m["variables"].GetArray()) x->add_variable(var(v));
        for (auto const &n : m["instances"].GetArray()) x->add_instance(S(n, "name"), mods.at(S(n, "module")));
    }
    if (Bo(d, "no_reorder")) t.disable_reorder();
    if (Bo(d, "twice")) wk(w, "before", t.output());
    if (Bo(d, "compress")) t.compress();
    wk(w, "text", t.output());
}
static void op_same_var(const JV &d, W &w) {
    // does a declaration added below the last block of the path already exist above it?
    json::SymbolTable t("x");
    auto *m = t.add_module("m");
    for (auto const &s : d["scope"].GetArray()) build_scope(s, m);
    json::ScopeBase *p = m;
    for (auto const &i : d["path"].GetArray()) p = &(*p)[i.GetUint()];
    json::VarStmt stmt(var(d["variable"]), U(d, "line"), Bo(d, "decl"));
    attrs(d, &stmt);
    wb(w, "r", json::SymbolTable::has_same_var(p, stmt));
}
static void op_jsonwriter(const JV &d, W &w) {
    json::JSONWriter j;
    std::function<void(const JV &)> rec = [&](const JV &v) {
        if (v.IsObject()) {
            j.begin_obj();
            for (auto const &m : v.GetObject()) {
                j.key(str(m.name));
                rec(m.value);
            }
            j.end_obj();
        } else if (v.IsArray()) {
            j.begin_array();
            for (auto const &x : v.GetArray()) rec(x);
            j.end_array();
        } else if (v.IsBool()) {
            j.value(v.GetBool());
        } else if (v.IsInt64()) {
            j.value(v.GetInt64());
        } else if (v.IsString()) {
            j.value(str(v));
        }
    };
    rec(d["v"]);
    wk(w, "text", j.str());
}

// ---------------------------------------------------------------- small utilities
static void op_util(const JV &d, W &w) {
    auto q = S(d, "q");
    w.Key("r");
    if (q == "tokens") {
        w.StartArray();
        for (auto const &s : util::get_tokens(S(d, "s"), S(d, "d"))) ws(w, s);
        w.EndArray();
    } else if (q == "stol") {
        auto v = util::stol(S(d, "s"));
        if (v)
            w.Int64(*v);
        else
            w.Null();
    } else if (q == "stoul") {
        auto v = util::stoul(S(d, "s"));
        if (v)
            w.Uint64(*v);
        else
            w.Null();
    } else {
        w.Null();
    }
}

int main() {
    signal(SIGPIPE, SIG_IGN);
    // replies go to the original stdout, whatever the code prints elsewhere
    int out = dup(1);
    dup2(2, 1);
    FILE *o = fdopen(out, "w");
    std::string line;
    static const std::map<std::string, void (*)(const JV &, W &)> ops = {
        {"expr", op_expr},     {"table", op_table},   {"request", op_request}, {"response", op_response}, {"symreq", op_symreq},
        {"vcd", op_vcd},       {"rtl", op_rtl},       {"writer", op_writer},   {"same_var", op_same_var}, {"jsonwriter", op_jsonwriter},
        {"util", op_util}};
    while (std::getline(std::cin, line)) {
        rapidjson::Document d;
        d.Parse<rapidjson::kParseFullPrecisionFlag>(line.c_str(), line.size());
        rapidjson::StringBuffer b;
        if (d.HasParseError() || !d.IsObject()) {
            fprintf(o, "{\"proto\":\"bad line\"}\n");
            fflush(o);
            continue;
        }
        std::string exc;
        bool threw = false;
        {
            W w(b);
            w.StartObject();
            try {
                ops.at(S(d, "op"))(d, w);
            } catch (const std::exception &e) {
                threw = true;
                exc = e.what();
            }
            if (!threw) w.EndObject();
        }
        if (threw) {
            rapidjson::StringBuffer b2;
            W w(b2);
            w.StartObject();
            wk(w, "exc", exc);
            w.EndObject();
            fwrite(b2.GetString(), 1, b2.GetSize(), o);
        } else {
            fwrite(b.GetString(), 1, b.GetSize(), o);
        }
        fputc('\n', o);
        fflush(o);
    }
    tables.clear();
    rtls.clear();
    fclose(o);
    return 0;
}
