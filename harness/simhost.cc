// The simulator stand-in: drives the real debugger through the VPI boundary, controlled over stdin, reporting on stdout.
#include <condition_variable>
#include <csignal>
#include <fstream>
#include <iostream>
#include <queue>

#include "debug.hh"
#include "flat.hh"
#include "sim.hh"
#include "simvpi.hh"
#include "symbol.hh"

using namespace hgdb;
using sim::emit;
using sim::jstr;


static std::mutex q_lock;
static std::condition_variable q_cv;
static std::deque<std::shared_ptr<rapidjson::Document>> q;
static std::atomic<uint64_t> progress{0};
static std::atomic<bool> in_eval{false}, finish_req{false}, done{false};
static sim::SimVPI *vpi = nullptr;

// waveform: edge k has been visited with these values
struct Snap {
    uint64_t time;
    std::vector<int64_t> values;
};
static std::mutex snap_lock;
static std::vector<Snap> snaps;
static std::atomic<int64_t> cur{-1};

static void control() {
    std::string line;
    while (std::getline(std::cin, line)) {
        auto d = std::make_shared<rapidjson::Document>();
        d->Parse(line.c_str(), line.size());
        if (d->HasParseError() || !d->IsObject()) {
            emit("badcmd");
            continue;
        }
        std::string c = S(*d, "c");
        std::string tag = d->HasMember("tag") ? ",\"tag\":" + std::to_string((*d)["tag"].GetInt()) : "";
        if (c == "progress") {
            emit("progress", "\"n\":" + std::to_string(progress.load()) + ",\"in_eval\":" + (in_eval ? "true" : "false") +
                                 ",\"cur\":" + std::to_string(cur.load()) + ",\"t\":" + std::to_string(vpi->time.load()) +
                                 ",\"bad\":" + std::to_string(vpi->n_bad.load()) + tag);
        } else if (c == "cbs") {
            emit("cbs", vpi->cb_list() + tag);
        } else if (c == "values") {
            std::string r;
            for (size_t i = 0; i < vpi->leaves.size(); i++)
                r += (i ? "," : "") + jstr(vpi->leaves[i]->full_name) + ":" + std::to_string(vpi->values[i].load());
            emit("values", "\"v\":{" + r + "}" + tag);
        } else if (c == "delay") {
            vpi->get_delay_us = (*d)["us"].GetUint();
            emit("ok", "\"x\":1" + tag);
        } else if (c == "set") {
            for (auto const &p : (*d)["v"].GetArray()) vpi->values[p[0].GetInt()].store(p[1].GetInt64());
            emit("ok", "\"x\":1" + tag);
        } else if (c == "exit") {
            emit("exiting");
            fflush(stdout);
            _exit(0);
        } else {
            std::lock_guard g(q_lock);
            q.emplace_back(d);
            q_cv.notify_all();
        }
    }
    // parent gone
    if (!done) _exit(3);
}

// simulation time between two edges
static uint64_t tunit = 10;

static void run_edges(const JV &d, sim::Node *clk, bool verilator) {
    auto const &edges = d["edges"].GetArray();
    int64_t base;
    {
        std::lock_guard g(snap_lock);
        base = (int64_t)snaps.size();
    }
    int64_t total = base + edges.Size();
    cur = base - 1;
    while (!finish_req && cur.load() + 1 < total) {
        int64_t k = cur.load() + 1;
        if (clk) {
            vpi->time = tunit * (uint64_t)k + tunit / 2;
            vpi->drive(clk, 0);
        }
        vpi->time = tunit * (uint64_t)(k + 1);
        bool replay;
        {
            std::lock_guard g(snap_lock);
            replay = k < (int64_t)snaps.size();
            if (replay)
                for (size_t i = 0; i < vpi->leaves.size(); i++)
                    if (vpi->leaves[i] != clk) vpi->values[i].store(snaps[k].values[i], std::memory_order_relaxed);
        }
        if (!replay) {
            for (auto const &p : edges[(unsigned)(k - base)].GetArray()) vpi->drive(vpi->leaves[p[0].GetInt()], p[1].GetInt64());
            std::lock_guard g(snap_lock);
            Snap s{vpi->time.load(), {}};
            for (size_t i = 0; i < vpi->leaves.size(); i++) s.values.emplace_back(vpi->values[i].load());
            snaps.emplace_back(std::move(s));
        }
        cur = k;
        progress++;
        in_eval = true;
        emit("eb", "\"k\":" + std::to_string(k) + ",\"t\":" + std::to_string(vpi->time.load()));
        if (verilator) {
            vpi->fire(cbNextSimTime, nullptr);
        } else if (clk) {
            vpi->drive(clk, 1);
        }
        in_eval = false;
        progress++;
        emit("ee", "\"k\":" + std::to_string(cur.load()));
    }
    emit("done", "\"k\":" + std::to_string(cur.load()));
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    rapidjson::Document cfg;
    {
        std::ifstream f(argv[1]);
        std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        cfg.Parse(s.c_str(), s.size());
        if (cfg.HasParseError()) return 4;
    }
    auto v = std::make_unique<sim::SimVPI>(cfg);
    // never freed: registered callbacks and handles must stay addressable for the monitors
    vpi = v.get();
    struct Fwd : AVPIProvider {
        sim::SimVPI *v;
        explicit Fwd(sim::SimVPI *v) : v(v) {}
        void vpi_get_value(vpiHandle e, p_vpi_value p) override { v->vpi_get_value(e, p); }
        PLI_INT32 vpi_get(PLI_INT32 p, vpiHandle o) override { return v->vpi_get(p, o); }
        vpiHandle vpi_iterate(PLI_INT32 t, vpiHandle r) override { return v->vpi_iterate(t, r); }
        vpiHandle vpi_scan(vpiHandle i) override { return v->vpi_scan(i); }
        char *vpi_get_str(PLI_INT32 p, vpiHandle o) override { return v->vpi_get_str(p, o); }
        vpiHandle vpi_handle_by_name(char *n, vpiHandle s) override { return v->vpi_handle_by_name(n, s); }
        vpiHandle vpi_handle_by_index(vpiHandle o, PLI_INT32 i) override { return v->vpi_handle_by_index(o, i); }
        PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info i) override { return v->vpi_get_vlog_info(i); }
        void vpi_get_time(vpiHandle o, p_vpi_time t) override { v->vpi_get_time(o, t); }
        vpiHandle vpi_register_cb(p_cb_data d) override { return v->vpi_register_cb(d); }
        PLI_INT32 vpi_remove_cb(vpiHandle h) override { return v->vpi_remove_cb(h); }
        PLI_INT32 vpi_release_handle(vpiHandle h) override { return v->vpi_release_handle(h); }
        PLI_INT32 vpi_control(PLI_INT32 op, ...) override { return v->vpi_control(op); }
        vpiHandle vpi_put_value(vpiHandle o, p_vpi_value p, p_vpi_time t, PLI_INT32 f) override { return v->vpi_put_value(o, p, t, f); }
        vpiHandle vpi_register_systf(p_vpi_systf_data d) override { return v->vpi_register_systf(d); }
        vpiHandle vpi_handle(int t, vpiHandle s) override { return v->vpi_handle(t, s); }
        bool vpi_rewind(rewind_data *d) override { return v->vpi_rewind(d); }
        bool has_defname() override { return v->has_defname(); }
    };
    v.release();
    vpi->on_control = [](int op) {
        if (op == vpiFinish) finish_req = true;
    };
    static sim::Node *clk = nullptr;
    if (cfg.HasMember("tunit")) tunit = cfg["tunit"].GetUint64();
    if (cfg.HasMember("clock")) clk = vpi->by_name.at(cfg["clock"].GetString());
    vpi->on_rewind = [](uint64_t t) {
        std::lock_guard g(snap_lock);
        for (int64_t k = (int64_t)snaps.size() - 1; k >= 0; k--) {
            if (snaps[k].time < t) {
                // the clock stays high: we land right after a rising edge
                for (size_t i = 0; i < vpi->leaves.size(); i++)
                    if (vpi->leaves[i] != clk) vpi->values[i].store(snaps[k].values[i], std::memory_order_relaxed);
                vpi->time = snaps[k].time;
                cur = k;
                return true;
            }
        }
        return false;
    };
    bool verilator = vpi->product == "Verilator";
    std::thread ctl(control);
    ctl.detach();
    bool start_server = cfg.HasMember("start_server") && cfg["start_server"].GetBool();

    Debugger *debugger = nullptr;
    if (start_server) emit("starting");
    debugger = initialize_hgdb_runtime_vpi(std::make_unique<Fwd>(vpi), start_server);
    if (cfg.HasMember("flat")) debugger->initialize_db(std::make_unique<FlatProvider>(cfg["flat"]));
    if (!start_server) {
        emit("starting");
        vpi->fire(cbStartOfSimulation, nullptr);
    }
    progress++;
    emit("started");

    while (true) {
        std::shared_ptr<rapidjson::Document> d;
        {
            std::unique_lock l(q_lock);
            q_cv.wait(l, [] { return !q.empty(); });
            d = q.front();
            q.pop_front();
        }
        auto c = S(*d, "c");
        if (c == "run") {
            run_edges(*d, clk, verilator);
        } else if (c == "assert") {
            // a $hgdb_assert_fail call: module, file, line, column
            static std::deque<sim::Node> args;
            vpi->tf_args.clear();
            args.clear();
            vpi->const_int.clear();
            vpi->const_str.clear();
            auto it = vpi->by_name.find(S(*d, "mod"));
            if (it != vpi->by_name.end()) vpi->tf_args.emplace_back(it->second);
            args.emplace_back();
            vpi->const_str[&args.back()] = S(*d, "file");
            vpi->tf_args.emplace_back(&args.back());
            for (auto const &n : (*d)["nums"].GetArray()) {
                args.emplace_back();
                vpi->const_int[&args.back()] = n.GetInt();
                vpi->tf_args.emplace_back(&args.back());
            }
            for (auto const &tf : vpi->systfs) tf.calltf(tf.user_data);
            vpi->tf_args.clear();
            emit("asserted");
        } else if (c == "finish") {
            emit("finishing");
            vpi->fire(cbEndOfSimulation, nullptr);
            done = true;
            emit("finished", vpi->cb_list());
            fflush(stdout);
            _exit(0);
        }
    }
}
