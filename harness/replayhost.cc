// hgdb-replay without its command line: the waveform database, its VPI provider and the emulation engine around the real
// debugger, as tools/hgdb-replay/hgdb-replay.cc puts them together. With "query" in the configuration, the database and the
// provider are asked directly over stdin instead.
#include <condition_variable>
#include <csignal>
#include <deque>
#include <fstream>
#include <iostream>
#include <mutex>

#include "debug.hh"
#include "engine.hh"
#include "flat.hh"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"
#include "sim.hh"
#include "vcd_db.hh"
#include "vpi.hh"

using namespace hgdb;

static std::mutex out_lock;
static void emit(const std::string &name, const std::string &rest = "") {
    std::lock_guard g(out_lock);
    fprintf(stdout, "{\"e\":\"%s\"%s%s}\n", name.c_str(), rest.empty() ? "" : ",", rest.c_str());
    fflush(stdout);
}

static std::mutex lk;
static std::condition_variable cv;
static bool finish_req = false;
static PLI_INT32 (*end_rtn)(p_cb_data) = nullptr;

// the end of the waveform: the debugger is only torn down once asked for
static PLI_INT32 at_end(p_cb_data d) {
    emit("done");
    {
        std::unique_lock l(lk);
        cv.wait(l, [] { return finish_req; });
    }
    return end_rtn(d);
}

class Provider : public replay::ReplayVPIProvider {
public:
    using ReplayVPIProvider::ReplayVPIProvider;
    vpiHandle vpi_register_cb(p_cb_data d) override {
        if (d->reason == cbEndOfSimulation) {
            end_rtn = d->cb_rtn;
            auto copy = *d;
            copy.cb_rtn = at_end;
            return ReplayVPIProvider::vpi_register_cb(&copy);
        }
        return ReplayVPIProvider::vpi_register_cb(d);
    }
};

static void control() {
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document d;
        d.Parse(line.c_str(), line.size());
        if (d.HasParseError() || !d.IsObject()) continue;
        auto c = S(d, "c");
        if (c == "finish") {
            std::lock_guard g(lk);
            finish_req = true;
            cv.notify_all();
        } else if (d.HasMember("tag")) {
            emit("ok", "\"tag\":" + std::to_string(d["tag"].GetInt()));
        }
    }
    _exit(0);
}

using W = rapidjson::Writer<rapidjson::StringBuffer>;
static void str(W &w, const std::string &s) { w.String(s.c_str(), s.size()); }
template <class T>
static void opt(W &w, const std::optional<T> &v) {
    if (!v)
        w.Null();
    else if constexpr (std::is_same_v<T, std::string>)
        str(w, *v);
    else
        w.Uint64(*v);
}

static vpiHandle H(const JV &v, const char *k) { return reinterpret_cast<vpiHandle>(v.HasMember(k) ? v[k].GetUint64() : 0); }
static uint64_t N(vpiHandle h) { return reinterpret_cast<uint64_t>(h); }

static void query(replay::ReplayVPIProvider &v) {
    auto &db = v.db();
    std::string line;
    while (std::getline(std::cin, line)) {
        rapidjson::Document d;
        d.Parse(line.c_str(), line.size());
        if (d.HasParseError() || !d.IsObject()) continue;
        auto q = S(d, "q");
        auto U = [&](const char *k) { return d[k].GetUint64(); };
        rapidjson::StringBuffer b;
        W w(b);
        w.StartObject();
        w.Key("r");
        if (q == "inst_id") {
            opt(w, db.get_instance_id(S(d, "name")));
        } else if (q == "sig_id") {
            opt(w, db.get_signal_id(S(d, "name")));
        } else if (q == "sigs") {
            w.StartArray();
            for (auto const &s : db.get_instance_signals(U("id"))) {
                w.StartArray();
                w.Uint64(s.id);
                str(w, s.name);
                w.Uint(s.width);
                w.EndArray();
            }
            w.EndArray();
        } else if (q == "kids") {
            w.StartArray();
            for (auto const &s : db.get_child_instances(U("id"))) {
                w.StartArray();
                w.Uint64(s.id);
                str(w, s.name);
                w.EndArray();
            }
            w.EndArray();
        } else if (q == "sig") {
            auto s = db.get_signal(U("id"));
            w.StartArray();
            if (s) {
                w.Uint64(s->id);
                str(w, s->name);
                w.Uint(s->width);
            }
            w.EndArray();
        } else if (q == "inst") {
            opt(w, db.get_instance(U("id")));
        } else if (q == "value") {
            opt(w, db.get_signal_value(U("id"), U("t")));
        } else if (q == "next") {
            opt(w, db.get_next_value_change_time(U("id"), U("t")));
        } else if (q == "prev") {
            opt(w, db.get_prev_value_change_time(U("id"), U("t"), S(d, "v")));
        } else if (q == "full_sig") {
            str(w, db.get_full_signal_name(U("id")));
        } else if (q == "full_inst") {
            str(w, db.get_full_instance_name(U("id")));
        } else if (q == "handle") {
            auto n = S(d, "name");
            w.Uint64(N(v.vpi_handle_by_name(n.data(), nullptr)));
        } else if (q == "vget") {
            w.Int64(v.vpi_get(d["p"].GetInt(), H(d, "h")));
        } else if (q == "vstr") {
            str(w, v.vpi_get_str(d["p"].GetInt(), H(d, "h")));
        } else if (q == "time") {
            v.set_timestamp(U("t"));
            w.Null();
        } else if (q == "val") {
            w.StartArray();
            s_vpi_value p;
            p.format = vpiIntVal;
            v.vpi_get_value(H(d, "h"), &p);
            w.Int64(p.value.integer);
            for (auto f : {vpiHexStrVal, vpiBinStrVal}) {
                p.format = f;
                p.value.str = nullptr;
                v.vpi_get_value(H(d, "h"), &p);
                if (p.value.str)
                    w.String(p.value.str);
                else
                    w.Null();
            }
            w.EndArray();
        } else if (q == "iter") {
            auto *it = v.vpi_iterate(d["p"].GetInt(), H(d, "h"));
            w.StartArray();
            while (it) {
                auto *h = v.vpi_scan(it);
                if (!h) break;
                w.Uint64(N(h));
            }
            w.EndArray();
        } else if (q == "release") {
            v.vpi_release_handle(H(d, "h"));
            w.Null();
        } else if (q == "index") {
            w.Uint64(N(v.vpi_handle_by_index(H(d, "h"), d["i"].GetInt())));
        } else if (q == "arrays") {
            std::vector<std::string> n;
            for (auto const &x : d["names"].GetArray()) n.emplace_back(x.GetString());
            v.build_array_table(n);
            w.Null();
        } else if (q == "put") {
            s_vpi_value p;
            p.format = vpiIntVal;
            p.value.integer = 1;
            v.vpi_put_value(H(d, "h"), &p, nullptr, 0);
            w.Null();
        } else if (q == "argv") {
            for (auto const &x : d["add"].GetArray()) v.add_argv(x.GetString());
            t_vpi_vlog_info i{};
            v.vpi_get_vlog_info(&i);
            w.StartArray();
            for (int k = 0; k < i.argc; k++) w.String(i.argv[k]);
            w.EndArray();
        } else {
            w.Null();
        }
        w.EndObject();
        puts(b.GetString());
        fflush(stdout);
    }
    _exit(0);
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    rapidjson::Document cfg;
    {
        std::ifstream f(argv[1]);
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        cfg.Parse(s.c_str(), s.size());
        if (cfg.HasParseError()) return 4;
    }
    auto db = std::make_unique<vcd::VCDDatabase>(S(cfg, "vcd"), cfg.HasMember("store") && cfg["store"].GetBool());
    auto vpi = std::make_unique<Provider>(std::move(db));
    auto *p = vpi.get();
    std::vector<std::string> args = {"hgdb-replay", S(cfg, "vcd")};
    std::vector<char *> av;
    for (auto &a : args) av.emplace_back(a.data());
    vpi->set_argv((int)av.size(), av.data());
    if (cfg.HasMember("argv"))
        for (auto const &a : cfg["argv"].GetArray()) vpi->add_argv(a.GetString());
    if (cfg.HasMember("query")) {
        puts("{\"r\":\"ready\"}");
        fflush(stdout);
        query(*p);
    }
    if (cfg.HasMember("start")) vpi->set_timestamp(cfg["start"].GetUint64());

    replay::EmulationEngine engine(p);
    auto *debugger = initialize_hgdb_runtime_vpi(std::move(vpi), false);
    debugger->set_option("use_hex_str", true);
    for (auto *r : debugger->rtl_clients()) r->set_vpi_allocator([p]() { return p->get_new_handle(); });
    debugger->set_on_client_connected([p, debugger](SymbolTableProvider &table) {
        auto names = table.get_all_array_names();
        std::vector<std::string> full;
        for (auto *r : debugger->rtl_clients())
            for (auto const &n : names) full.emplace_back(r->get_full_name(n));
        p->build_array_table(full);
    });
    if (cfg.HasMember("flat")) debugger->initialize_db(std::make_unique<FlatProvider>(cfg["flat"]));
    std::thread ctl(control);
    ctl.detach();
    emit("starting");
    engine.run();
    emit("finished");
    _exit(0);
}
