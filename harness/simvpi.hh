// A model simulator behind hgdb's VPI interface (AVPIProvider). Structure is immutable after construction and values
// are relaxed atomics, so that the provider adds no synchronisation that could hide races in the code under test.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "rapidjson/document.h"
#include "rapidjson/stringbuffer.h"
#include "rapidjson/writer.h"
#include "rtl.hh"
#include "sv_vpi_user.h"
#include "vpi_user.h"

namespace sim {

inline std::mutex out_lock;
inline std::atomic<uint64_t> out_seq{0};

inline std::string jstr(const std::string &s) {
    rapidjson::StringBuffer b;
    rapidjson::Writer<rapidjson::StringBuffer> w(b);
    w.String(s.c_str(), s.size());
    return {b.GetString(), b.GetSize()};
}

// one event line: {"s":seq,"e":name,...}
inline void emit(const std::string &name, const std::string &rest = "") {
    std::lock_guard g(out_lock);
    fprintf(stdout, "{\"s\":%llu,\"e\":\"%s\"%s%s}\n", (unsigned long long)out_seq++, name.c_str(),
            rest.empty() ? "" : ",", rest.c_str());
    fflush(stdout);
}

struct Node {
    uint64_t magic = 0x51a51a51a5ULL;
    int type = vpiModule;
    std::string name, full_name, def_name;
    uint32_t width = 1;
    bool readonly = false;
    int value_index = -1;  // leaves only
    Node *parent = nullptr;
    std::vector<Node *> modules;   // child instances
    std::vector<Node *> signals;   // signals of a module
    std::vector<Node *> elements;  // array elements
    std::vector<Node *> members;   // struct members
    std::vector<Node *> bits;      // bits of a vector (if the simulator gives them)
    Node *bit_of = nullptr;        // this is one bit of that vector
    int bit = 0;
    bool indexed = false;          // an element, a bit, or below one
};

struct Iter {
    std::vector<Node *> items;
    size_t pos = 0;
};

struct Callback {
    s_cb_data data;
    bool active = true;
};

class SimVPI : public hgdb::AVPIProvider {
public:
    std::deque<Node> nodes;
    std::vector<Node *> tops;
    std::vector<Node *> leaves;
    std::unordered_map<std::string, Node *> by_name;
    std::unordered_set<const void *> valid;
    std::unique_ptr<std::atomic<int64_t>[]> values;
    std::atomic<uint64_t> time{0};
    std::string product = "RTLMock", version = "1.0";
    std::vector<std::string> args;
    std::vector<char *> argv;
    bool defname = true;
    bool can_rewind = false;
    bool name_index = true;  // does handle_by_name understand a[1]
    bool bits = false;        // can single bits be selected
    bool fail_cb = false;
    std::atomic<uint32_t> get_delay_us{0};
    std::atomic<uint64_t> n_get{0}, n_put{0}, n_bad{0};
    std::function<bool(uint64_t)> on_rewind;
    std::function<void(int)> on_control;

    std::mutex cb_lock;
    std::list<Callback> cbs;
    std::mutex iter_lock;
    std::unordered_set<Iter *> iters;

    // system task call under way (for $hgdb_assert_fail)
    Node tf_call, tf_mod;
    std::vector<Node *> tf_args;
    std::unordered_map<Node *, std::string> const_str;
    std::unordered_map<Node *, int> const_int;
    std::vector<s_vpi_systf_data> systfs;

    explicit SimVPI(const rapidjson::Value &cfg) {
        if (cfg.HasMember("product")) product = cfg["product"].GetString();
        if (cfg.HasMember("version")) version = cfg["version"].GetString();
        if (cfg.HasMember("defname")) defname = cfg["defname"].GetBool();
        if (cfg.HasMember("rewind")) can_rewind = cfg["rewind"].GetBool();
        if (cfg.HasMember("bits")) bits = cfg["bits"].GetBool();
        if (cfg.HasMember("name_index")) name_index = cfg["name_index"].GetBool();
        if (cfg.HasMember("argv"))
            for (auto const &a : cfg["argv"].GetArray()) args.emplace_back(a.GetString(), a.GetStringLength());
        for (auto &a : args) argv.emplace_back(const_cast<char *>(a.c_str()));
        for (auto const &m : cfg["modules"].GetArray()) tops.emplace_back(add_module(m, nullptr));
        values = std::make_unique<std::atomic<int64_t>[]>(leaves.size() + 1);
        for (size_t i = 0; i < leaves.size(); i++) values[i] = init_[i];
    }

    Node *new_node(Node *parent, const std::string &name, const std::string &sep = ".") {
        nodes.emplace_back();
        auto *n = &nodes.back();
        n->parent = parent;
        n->name = name;
        n->full_name = parent ? parent->full_name + sep + name : name;
        n->indexed = sep.empty() || (parent && parent->indexed);
        by_name.emplace(n->full_name, n);
        valid.emplace(n);
        return n;
    }

    Node *add_module(const rapidjson::Value &m, Node *parent) {
        auto *n = new_node(parent, m["name"].GetString());
        n->type = vpiModule;
        n->def_name = m.HasMember("def") ? m["def"].GetString() : n->name;
        if (m.HasMember("signals"))
            for (auto const &s : m["signals"].GetArray()) n->signals.emplace_back(add_signal(s, n, s["name"].GetString(), "."));
        if (m.HasMember("children"))
            for (auto const &c : m["children"].GetArray()) n->modules.emplace_back(add_module(c, n));
        return n;
    }

    Node *add_signal(const rapidjson::Value &s, Node *parent, const std::string &name, const std::string &sep) {
        auto *n = new_node(parent, name, sep);
        std::string kind = s.HasMember("kind") ? s["kind"].GetString() : "net";
        n->width = s.HasMember("width") ? s["width"].GetUint() : 1;
        n->readonly = s.HasMember("readonly") && s["readonly"].GetBool();
        if (kind == "struct") {
            n->type = vpiStructVar;
            uint32_t w = 0;
            for (auto const &m : s["members"].GetArray()) {
                auto *c = add_signal(m, n, m["name"].GetString(), ".");
                n->members.emplace_back(c);
                w += c->width;
            }
            n->width = w;
        } else if (kind == "array" || kind == "packed" || kind == "memory") {
            n->type = kind == "array" ? vpiRegArray : kind == "memory" ? vpiMemory : vpiReg;
            auto size = s["size"].GetUint();
            for (auto i = 0u; i < size; i++) {
                auto *c = add_signal(s["elem"], n, "[" + std::to_string(i) + "]", "");
                if (kind == "memory") c->type = vpiMemoryWord;
                n->elements.emplace_back(c);
            }
            n->width = kind == "packed" ? (size ? size * n->elements[0]->width : 0) : size;
        } else {
            n->type = kind == "reg" ? vpiReg : kind == "param" ? vpiParameter : vpiNet;
        }
        if (n->members.empty() && n->elements.empty()) {
            n->value_index = (int)leaves.size();
            leaves.emplace_back(n);
            init_.emplace_back(s.HasMember("value") ? s["value"].GetInt64() : 0);
            if (bits && n->width > 1 && (n->type == vpiReg || n->type == vpiNet)) {
                for (int i = 0; i < (int)n->width; i++) {
                    auto *b = new_node(n, "[" + std::to_string(i) + "]", "");
                    b->type = n->type == vpiReg ? vpiRegBit : vpiNetBit;
                    b->width = 1;
                    b->bit_of = n;
                    b->bit = i;
                    b->readonly = n->readonly;
                    n->bits.emplace_back(b);
                }
            }
        }
        return n;
    }

    Node *check(vpiHandle h, const char *fn) {
        if (valid.count(h)) return reinterpret_cast<Node *>(h);
        if (reinterpret_cast<Node *>(h) == &tf_call || const_str.count(reinterpret_cast<Node *>(h)) ||
            const_int.count(reinterpret_cast<Node *>(h)))
            return reinterpret_cast<Node *>(h);
        n_bad++;
        char buf[64];
        snprintf(buf, sizeof buf, "\"h\":\"%p\"", (void *)h);
        emit("badhandle", std::string("\"fn\":\"") + fn + "\"," + buf);
        return nullptr;
    }

    static int64_t mask(int64_t v, uint32_t w) {
        return w >= 64 ? v : (int64_t)((uint64_t)v & ((1ULL << w) - 1));
    }
    int64_t raw(Node *n) const { return values[n->value_index].load(std::memory_order_relaxed); }

    void vpi_get_value(vpiHandle h, p_vpi_value v) override {
        n_get.fetch_add(1, std::memory_order_relaxed);
        if (auto d = get_delay_us.load(std::memory_order_relaxed)) std::this_thread::sleep_for(std::chrono::microseconds(d));
        static thread_local std::string buf;
        auto *n = check(h, "get_value");
        if (!n) {
            v->value.integer = 0;
            if (v->format != vpiIntVal) v->value.str = const_cast<char *>("0");
            return;
        }
        if (const_int.count(n)) {
            v->value.integer = const_int.at(n);
            return;
        }
        if (const_str.count(n)) {
            buf = const_str.at(n);
            v->value.str = buf.data();
            return;
        }
        int64_t value = 0;
        if (n->value_index >= 0) {
            value = mask(raw(n), n->width);
        } else if (n->bit_of) {
            value = (int64_t)(((uint64_t)raw(n->bit_of) >> n->bit) & 1);
        } else if (!n->elements.empty() && n->type == vpiReg) {
            // packed array: element 0 is least significant
            uint32_t sh = 0;
            for (auto *e : n->elements) {
                if (sh < 64 && e->value_index >= 0) value |= (int64_t)((uint64_t)mask(raw(e), e->width) << sh);
                sh += e->width;
            }
        }
        switch (v->format) {
            case vpiIntVal:
                v->value.integer = (PLI_INT32)(uint64_t)value;
                break;
            case vpiBinStrVal: {
                buf.clear();
                for (int i = (int)n->width - 1; i >= 0; i--) buf.push_back(i < 64 && (((uint64_t)value >> i) & 1) ? '1' : '0');
                v->value.str = buf.data();
                break;
            }
            case vpiHexStrVal: {
                char tmp[32];
                snprintf(tmp, sizeof tmp, "%llX", (unsigned long long)value);
                buf = tmp;
                size_t want = (n->width + 3) / 4;
                while (buf.size() < want) buf.insert(buf.begin(), '0');
                v->value.str = buf.data();
                break;
            }
            default:
                buf = std::to_string(value);
                v->value.str = buf.data();
        }
    }

    PLI_INT32 vpi_get(PLI_INT32 property, vpiHandle h) override {
        auto *n = check(h, "get");
        if (!n) return vpiUndefined;
        switch (property) {
            case vpiType:
                if (const_str.count(n) || const_int.count(n)) return vpiConstant;
                return n->type;
            case vpiConstType:
                return const_str.count(n) ? vpiStringConst : vpiIntConst;
            case vpiSize:
                return (PLI_INT32)n->width;
            case vpiVector:
                return n->type == vpiModule ? 0 : (n->width > 1 || !n->elements.empty());
            default:
                return vpiUndefined;
        }
    }

    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle h) override {
        auto *it = new Iter;
        if (!h) {
            if (type == vpiModule) it->items = tops;
        } else {
            auto *n = check(h, "iterate");
            if (n) {
                if (type == vpiModule)
                    it->items = n->modules;
                else if (type == vpiMember)
                    it->items = n->members;
                else if (type == vpiRange || type == vpiElement)
                    it->items = n->elements;
                else if (type == vpiArgument)
                    it->items = tf_args;
                else
                    for (auto *s : n->signals)
                        if (s->type == type) it->items.emplace_back(s);
            }
        }
        if (it->items.empty()) {
            delete it;
            return nullptr;
        }
        std::lock_guard g(iter_lock);
        iters.emplace(it);
        return reinterpret_cast<vpiHandle>(it);
    }

    vpiHandle vpi_scan(vpiHandle h) override {
        auto *it = reinterpret_cast<Iter *>(h);
        {
            std::lock_guard g(iter_lock);
            if (!iters.count(it)) {
                n_bad++;
                emit("badhandle", "\"fn\":\"scan\"");
                return nullptr;
            }
        }
        if (it->pos < it->items.size()) return reinterpret_cast<vpiHandle>(it->items[it->pos++]);
        std::lock_guard g(iter_lock);
        iters.erase(it);
        delete it;
        return nullptr;
    }

    // as in IEEE 1800 38.16: one temporary buffer, overwritten by every call (here: per thread)
    char *vpi_get_str(PLI_INT32 property, vpiHandle h) override {
        static thread_local char buf[4096];
        auto *n = check(h, "get_str");
        if (!n) return nullptr;
        const std::string *s = nullptr;
        if (property == vpiName)
            s = &n->name;
        else if (property == vpiFullName)
            s = &n->full_name;
        else if (property == vpiDefName)
            s = &n->def_name;
        if (!s) return nullptr;
        snprintf(buf, sizeof buf, "%s", s->c_str());
        return buf;
    }

    vpiHandle vpi_handle_by_name(char *name, vpiHandle scope) override {
        std::string n = name;
        auto it = by_name.find(n);
        // a simulator may know scopes of generate blocks only, not the parts of a signal
        return it == by_name.end() || (!name_index && it->second->indexed) ? nullptr : reinterpret_cast<vpiHandle>(it->second);
    }

    vpiHandle vpi_handle_by_index(vpiHandle h, PLI_INT32 index) override {
        auto *n = check(h, "handle_by_index");
        if (n && index >= 0 && (size_t)index < n->bits.size()) return reinterpret_cast<vpiHandle>(n->bits[index]);
        if (!n || index < 0 || (size_t)index >= n->elements.size()) return nullptr;
        return reinterpret_cast<vpiHandle>(n->elements[index]);
    }

    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info info) override {
        info->product = const_cast<char *>(product.c_str());
        info->version = const_cast<char *>(version.c_str());
        info->argc = (int)argv.size();
        info->argv = argv.data();
        return 1;
    }

    void vpi_get_time(vpiHandle, p_vpi_time t) override {
        auto v = time.load(std::memory_order_relaxed);
        t->high = v >> 32;
        t->low = v & 0xffffffff;
    }

    vpiHandle vpi_register_cb(p_cb_data d) override {
        if (fail_cb) return nullptr;
        std::lock_guard g(cb_lock);
        cbs.emplace_back(Callback{*d, true});
        auto *p = &cbs.back();
        emit("cb_add", "\"reason\":" + std::to_string(d->reason) + ",\"obj\":" +
                           (d->obj ? jstr(reinterpret_cast<Node *>(d->obj)->full_name) : "null"));
        return reinterpret_cast<vpiHandle>(p);
    }

    PLI_INT32 vpi_remove_cb(vpiHandle h) override {
        std::lock_guard g(cb_lock);
        for (auto &c : cbs) {
            if (reinterpret_cast<vpiHandle>(&c) == h) {
                if (!c.active) break;
                c.active = false;
                emit("cb_del", "\"reason\":" + std::to_string(c.data.reason));
                return 1;
            }
        }
        n_bad++;
        emit("badhandle", "\"fn\":\"remove_cb\"");
        return 0;
    }
    PLI_INT32 vpi_release_handle(vpiHandle) override { return 1; }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        emit("control", "\"op\":" + std::to_string(op));
        if (on_control) on_control(op);
        return 1;
    }
    vpiHandle vpi_put_value(vpiHandle h, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        n_put++;
        auto *n = check(h, "put_value");
        if (n && n->bit_of && !n->readonly) {
            auto m = 1ULL << n->bit;
            auto &cell = values[n->bit_of->value_index];
            cell.store((int64_t)(((uint64_t)cell.load() & ~m) | (v->value.integer & 1 ? m : 0)));
            return nullptr;
        }
        if (!n || n->readonly || n->value_index < 0) return (vpiHandle)std::numeric_limits<uint64_t>::max();
        emit("put", "\"name\":" + jstr(n->full_name) + ",\"v\":" + std::to_string(v->value.integer));
        values[n->value_index].store(v->value.integer, std::memory_order_relaxed);
        return nullptr;
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data d) override {
        systfs.emplace_back(*d);
        return reinterpret_cast<vpiHandle>(&tf_call);
    }
    vpiHandle vpi_handle(int type, vpiHandle) override {
        if (type == vpiSysTfCall && !tf_args.empty()) return reinterpret_cast<vpiHandle>(&tf_call);
        return nullptr;
    }
    bool vpi_rewind(rewind_data *d) override {
        std::string clk;
        for (auto *c : d->clock_signals) {
            auto *n = check(c, "rewind");
            if (n) clk += (clk.empty() ? "" : ",") + jstr(n->full_name);
        }
        bool r = can_rewind && on_rewind && on_rewind(d->time);
        emit("rewind", "\"t\":" + std::to_string(d->time) + ",\"clk\":[" + clk + "],\"ok\":" + (r ? "true" : "false") +
                           ",\"now\":" + std::to_string(time.load()));
        return r;
    }
    bool has_defname() override { return defname; }

    // simulation side: change a leaf, firing value-change callbacks
    void drive(Node *n, int64_t v) {
        auto old = values[n->value_index].exchange(v, std::memory_order_relaxed);
        if (mask(old, n->width) == mask(v, n->width)) return;
        fire(cbValueChange, n);
    }
    void fire(int reason, Node *obj) {
        std::vector<Callback *> todo;
        {
            std::lock_guard g(cb_lock);
            for (auto &c : cbs)
                if (c.active && c.data.reason == reason && (!obj || reinterpret_cast<Node *>(c.data.obj) == obj)) todo.emplace_back(&c);
        }
        for (auto *c : todo) {
            {
                std::lock_guard g(cb_lock);
                if (!c->active) continue;
            }
            s_cb_data d = c->data;
            s_vpi_value value{};
            s_vpi_time t{};
            value.format = vpiIntVal;
            if (obj && obj->value_index >= 0) value.value.integer = (PLI_INT32)mask(raw(obj), obj->width);
            d.value = &value;
            d.time = &t;
            d.cb_rtn(&d);
        }
    }
    std::string cb_list() {
        std::lock_guard g(cb_lock);
        std::string r;
        for (auto &c : cbs)
            if (c.active)
                r += (r.empty() ? "" : ",") + std::string("[") + std::to_string(c.data.reason) + "," +
                     (c.data.obj ? jstr(reinterpret_cast<Node *>(c.data.obj)->full_name) : "null") + "]";
        return "\"cbs\":[" + r + "]";
    }

private:
    std::vector<int64_t> init_;
};

}  // namespace sim
