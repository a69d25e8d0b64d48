// a symbol table given explicitly in a host's configuration
#pragma once
#include <map>
#include <string>
#include <tuple>
#include <vector>

#include "rapidjson/document.h"
#include "symbol.hh"

using namespace hgdb;
using JV = rapidjson::Value;

static std::string S(const JV &v, const char *k, const char *d = "") {
    return v.HasMember(k) ? std::string(v[k].GetString(), v[k].GetStringLength()) : std::string(d);
}

// a symbol table given explicitly: any ids, any execution order, triggers, delayed variables, assignments
class FlatProvider : public SymbolTableProvider {
public:
    struct Ctx {
        std::string name, value;
        bool rtl;
        uint32_t type, depth;
    };
    struct Bp {
        uint32_t id, inst, line, col;
        std::string file, cond, trigger;
        std::vector<Ctx> ctx;
        std::vector<std::tuple<std::string, uint32_t, std::string, std::string>> assigned;
    };
    std::vector<Bp> bps;
    std::vector<std::pair<uint32_t, std::string>> insts;
    std::map<uint32_t, std::vector<Ctx>> gen;
    std::vector<uint32_t> order;
    std::map<std::string, std::vector<std::string>> ann;

    static std::vector<Ctx> ctxs(const JV &a) {
        std::vector<Ctx> r;
        for (auto const &c : a.GetArray())
            r.push_back({S(c, "name"), S(c, "value"), c["rtl"].GetBool(), c.HasMember("type") ? c["type"].GetUint() : 0u,
                         c.HasMember("depth") ? c["depth"].GetUint() : 1u});
        return r;
    }
    explicit FlatProvider(const JV &v) {
        for (auto const &i : v["instances"].GetArray()) insts.emplace_back(i[0].GetUint(), i[1].GetString());
        for (auto const &b : v["bps"].GetArray()) {
            Bp bp;
            bp.id = b["id"].GetUint();
            bp.inst = b["inst"].GetUint();
            bp.line = b["line"].GetUint();
            bp.col = b["col"].GetUint();
            bp.file = S(b, "file");
            bp.cond = S(b, "cond");
            bp.trigger = S(b, "trigger");
            bp.ctx = ctxs(b["ctx"]);
            if (b.HasMember("assigned"))
                for (auto const &a : b["assigned"].GetArray())
                    bp.assigned.emplace_back(a[0].GetString(), a[1].GetUint(), a[2].GetString(), a[3].GetString());
            bps.emplace_back(bp);
        }
        for (auto const &o : v["order"].GetArray()) order.emplace_back(o.GetUint());
        if (v.HasMember("gen"))
            for (auto const &g : v["gen"].GetArray()) gen[g[0].GetUint()] = ctxs(g[1]);
        if (v.HasMember("ann"))
            for (auto const &a : v["ann"].GetArray()) ann[a[0].GetString()].emplace_back(a[1].GetString());
    }
    static BreakPoint make(const Bp &b) {
        BreakPoint r;
        r.id = b.id;
        r.instance_id = std::make_unique<uint32_t>(b.inst);
        r.filename = b.file;
        r.line_num = b.line;
        r.column_num = b.col;
        r.condition = b.cond;
        r.trigger = b.trigger;
        return r;
    }
    std::vector<BreakPoint> get_breakpoints(const std::string &f, uint32_t l) override { return get_breakpoints(f, l, 0); }
    std::vector<BreakPoint> get_breakpoints(const std::string &f, uint32_t l, uint32_t c) override {
        std::vector<BreakPoint> r;
        auto name = resolve_filename_to_db(f);
        for (auto const &b : bps)
            if (b.file == name && (!l || b.line == l) && (!c || b.col == c)) {
                r.emplace_back(make(b));
                r.back().filename = resolve_filename_to_client(b.file);
            }
        return r;
    }
    std::vector<BreakPoint> get_breakpoints(const std::string &f) override { return get_breakpoints(f, 0, 0); }
    const Bp *find(uint32_t id) {
        for (auto const &b : bps)
            if (b.id == id) return &b;
        return nullptr;
    }
    std::optional<BreakPoint> get_breakpoint(uint32_t id) override {
        if (auto const *b = find(id)) {
            auto r = make(*b);
            r.filename = resolve_filename_to_client(b->file);
            return r;
        }
        return std::nullopt;
    }
    std::optional<std::string> get_instance_name(uint32_t id) override {
        for (auto const &[i, n] : insts)
            if (i == id) return n;
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(const std::string &name) override {
        for (auto const &[i, n] : insts)
            if (n == name) return i;
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(uint64_t bp) override {
        if (auto const *b = find(bp)) return b->inst;
        return std::nullopt;
    }
    std::vector<std::string> get_filenames() override {
        std::set<std::string> r;
        for (auto const &b : bps) r.emplace(b.file);
        return {r.begin(), r.end()};
    }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        if (auto const *b = find(id))
            for (auto const &c : b->ctx) {
                ContextVariable cv;
                cv.name = c.name;
                cv.breakpoint_id = std::make_unique<uint32_t>(id);
                cv.variable_id = std::make_unique<uint32_t>(0);
                cv.type = c.type;
                cv.depth = c.depth;
                Variable v;
                v.id = 0;
                v.value = c.value;
                v.is_rtl = c.rtl;
                r.emplace_back(std::make_pair(std::move(cv), std::move(v)));
            }
        return r;
    }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t id) override {
        std::vector<GeneratorVariableInfo> r;
        for (auto const &c : gen[id]) {
            GeneratorVariable gv;
            gv.name = c.name;
            gv.instance_id = std::make_unique<uint32_t>(id);
            gv.variable_id = std::make_unique<uint32_t>(0);
            Variable v;
            v.id = 0;
            v.value = c.value;
            v.is_rtl = c.rtl;
            r.emplace_back(std::make_pair(std::move(gv), std::move(v)));
        }
        return r;
    }
    std::vector<std::string> get_instance_names() override {
        std::vector<std::string> r;
        for (auto const &[i, n] : insts) r.emplace_back(n);
        return r;
    }
    std::vector<std::string> get_annotation_values(const std::string &name) override { return ann[name]; }
    std::vector<std::string> get_all_array_names() override { return {}; }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(const std::string &var,
                                                                                         uint32_t id) override {
        std::vector<std::tuple<uint32_t, std::string, std::string>> r;
        if (auto const *b = find(id))
            for (auto const &[v, bid, rtl, cond] : b->assigned)
                if (v == var) r.emplace_back(bid, rtl, cond);
        return r;
    }
    std::vector<uint32_t> execution_bp_orders() override { return order; }
    bool bad() const override { return false; }
};
