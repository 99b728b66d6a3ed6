// Replays recorded waveforms (VCD text, read by hgdb's own parser into memory) through hgdb's replay
// engine and writes down everything it shows: callbacks, reads, rewinds. One JSON object per line in,
// one log per line out. What is done inside callbacks is scripted.
#include <fstream>
#include <iostream>
#include <map>
#include <nlohmann/json.hpp>
#include <sstream>
#include <stack>

#include "engine.hh"
#include "vcd.hh"

using namespace hgdb;
using json = nlohmann::json;

struct Wave : waveform::WaveformProvider {
    struct Sig { std::string name; uint64_t inst; uint32_t width; std::map<uint64_t, std::string> v; };
    struct Inst { std::string name; int64_t parent; };
    std::vector<Sig> sigs;
    std::vector<Inst> insts;
    bool ok;
    explicit Wave(const std::string &text) {
        std::istringstream in(text);
        vcd::VCDParser p(in);
        std::stack<uint64_t> at;
        std::multimap<std::string, uint64_t> codes;
        p.set_on_enter_scope([&](const vcd::VCDScopeDef &d) {
            insts.push_back({d.name, at.empty() ? -1 : (int64_t)at.top()});
            at.push(insts.size() - 1);
        });
        p.set_exit_scope([&]() { at.pop(); });
        p.set_on_var_def([&](const vcd::VCDVarDef &d) {
            codes.emplace(d.identifier, sigs.size());
            sigs.push_back({d.name, at.top(), d.width, {}});
        });
        p.set_value_change([&](const vcd::VCDValue &v) {
            auto [b, e] = codes.equal_range(v.identifier);
            for (; b != e; b++) sigs[b->second].v[v.time] = v.value;
        });
        ok = p.parse();
        // a value that is written down again is not a change
        for (auto &s : sigs) {
            const std::string *prev = nullptr;
            for (auto i = s.v.begin(); i != s.v.end();)
                if (prev && *prev == i->second) i = s.v.erase(i);
                else prev = &i->second, i++;
        }
    }
    std::string full(uint64_t i) { return (insts[i].parent < 0 ? "" : full(insts[i].parent) + ".") + insts[i].name; }
    std::optional<uint64_t> get_instance_id(const std::string &n) override {
        for (uint64_t i = 0; i < insts.size(); i++) if (full(i) == n) return i;
        return {};
    }
    std::optional<uint64_t> get_signal_id(const std::string &n) override {
        for (uint64_t i = 0; i < sigs.size(); i++) if (full(sigs[i].inst) + "." + sigs[i].name == n) return i;
        return {};
    }
    std::vector<waveform::WaveformSignal> get_instance_signals(uint64_t id) override {
        std::vector<waveform::WaveformSignal> r;
        for (uint64_t i = 0; i < sigs.size(); i++) if (sigs[i].inst == id) r.push_back({i, sigs[i].name, sigs[i].width});
        return r;
    }
    std::vector<waveform::WaveformInstance> get_child_instances(uint64_t id) override {
        std::vector<waveform::WaveformInstance> r;
        for (uint64_t i = 0; i < insts.size(); i++) if (insts[i].parent == (int64_t)id) r.push_back({i, insts[i].name});
        return r;
    }
    std::optional<waveform::WaveformSignal> get_signal(uint64_t i) override {
        if (i >= sigs.size()) return {};
        return waveform::WaveformSignal{i, sigs[i].name, sigs[i].width};
    }
    std::optional<std::string> get_instance(uint64_t i) override {
        if (i >= insts.size()) return {};
        return insts[i].name;
    }
    std::optional<std::string> get_signal_value(uint64_t id, uint64_t t) override {
        if (id >= sigs.size()) return {};
        auto it = sigs[id].v.upper_bound(t);
        if (it == sigs[id].v.begin()) return {};
        return std::prev(it)->second;
    }
    std::string get_full_signal_name(uint64_t i) override { return i < sigs.size() ? full(sigs[i].inst) + "." + sigs[i].name : ""; }
    std::string get_full_instance_name(uint64_t i) override { return i < insts.size() ? full(i) : ""; }
    std::optional<uint64_t> get_next_value_change_time(uint64_t id, uint64_t t) override {
        if (id >= sigs.size()) return {};
        auto it = sigs[id].v.upper_bound(t);
        if (it == sigs[id].v.end()) return {};
        return it->first;
    }
    std::optional<uint64_t> get_prev_value_change_time(uint64_t id, uint64_t t, const std::string &v) override {
        if (id >= sigs.size()) return {};
        auto it = sigs[id].v.lower_bound(t);
        while (it != sigs[id].v.begin()) if ((--it)->second == v) return it->first;
        return {};
    }
};

static replay::ReplayVPIProvider *vpi;
static json job, out;
static size_t fired;
static uint64_t base;
static std::vector<vpiHandle> cbs;          // callback number -> handle

static uint64_t real_time(int64_t t) { return t > 0 ? t + base : 0; }
static int64_t spec_time(uint64_t t) { return t == 0 ? 0 : t > base && t - base < 1000000000 ? (int64_t)(t - base) : -1; }
static vpiHandle by_name(const std::string &n) { return vpi->vpi_handle_by_name(const_cast<char *>(n.c_str()), nullptr); }
static int64_t now() {
    s_vpi_time t{};
    t.type = vpiSimTime;
    vpi->vpi_get_time(nullptr, &t);
    return spec_time(((uint64_t)t.high << 32u) | t.low);
}
static json bits32(int32_t v) {
    json r = json::array();
    for (int i = 0; i < 32; i++) r.push_back((uint32_t)v >> i & 1u);
    return r;
}
static json chars(const char *s) {
    json r = json::array();
    for (; s && *s; s++) r.push_back(std::string(1, *s));
    return r;
}
static int on_fire(p_cb_data d);
static void act(const json &script) {
    for (auto &a : script) {
        json o = {{"e", a["e"]}};
        auto e = a["e"].get<std::string>();
        if (e == "read") {
            o["r"] = a["r"];
            auto h = by_name(job["refs"][a["r"].get<int>() - 1]);
            o["known"] = h != nullptr;
            o["int"] = o["hex"] = o["bin"] = json::array();
            o["size"] = 0;
            if (h) {
                s_vpi_value v;
                v.format = vpiIntVal;
                v.value.integer = 77;
                vpi->vpi_get_value(h, &v);
                o["int"] = bits32(v.value.integer);
                v.format = vpiHexStrVal;
                vpi->vpi_get_value(h, &v);
                o["hex"] = chars(v.value.str);
                v.format = vpiBinStrVal;
                vpi->vpi_get_value(h, &v);
                o["bin"] = chars(v.value.str);
                o["size"] = vpi->vpi_get(vpiSize, h);
            }
        } else if (e == "time") {
            o["t"] = now();
        } else if (e == "rewind") {
            AVPIProvider::rewind_data r;
            r.time = real_time(a["t"]);
            for (auto &s : a["clks"]) r.clock_signals.push_back(by_name(job["refs"][s.get<int>() - 1]));
            o["t"] = a["t"];
            o["clks"] = a["clks"];
            o["ok"] = vpi->vpi_rewind(&r);
            o["now"] = now();
        } else if (e == "reg") {
            auto h = by_name(job["refs"][a["s"].get<int>() - 1]);
            s_cb_data c{};
            s_vpi_time t{};
            s_vpi_value v{};
            t.type = vpiSuppressTime;
            v.format = vpiIntVal;
            c.time = &t;
            c.value = &v;
            c.reason = cbValueChange;
            c.cb_rtn = on_fire;
            c.obj = h;
            c.user_data = (char *)(cbs.size() + 1);
            cbs.push_back(nullptr);
            auto n = cbs.size();
            auto r = vpi->vpi_register_cb(&c);
            cbs[n - 1] = r;
            o["s"] = a["s"];
            o["cb"] = n;
            o["ok"] = r != nullptr;
        } else if (e == "rem") {
            auto k = a["cb"].get<size_t>();
            if (k < 1 || k > cbs.size() || !cbs[k - 1]) continue;
            o["cb"] = k;
            o["ok"] = vpi->vpi_remove_cb(cbs[k - 1]) == 1;
            cbs[k - 1] = nullptr;
        } else if (e == "stop") {
            vpi->vpi_control(vpiFinish, 1);
        }
        out.push_back(o);
    }
}
static int on_fire(p_cb_data d) {
    if (out.size() > 3000) {
        vpi->vpi_control(vpiFinish, 1);
        out.push_back({{"e", "toolong"}});
        return 0;
    }
    json o = {{"e", "fire"}, {"cb", (size_t)d->user_data}, {"t", now()}, {"v", bits32(d->value ? d->value->value.integer : -1)}};
    out.push_back(o);
    auto k = fired++;
    if (k < job["scripts"].size()) act(job["scripts"][k]);
    return 0;
}
static int on_start(p_cb_data) {
    out.push_back({{"e", "start"}});
    act(job["begin"]);
    return 0;
}
static int on_end(p_cb_data) {
    out.push_back({{"e", "end"}});
    return 0;
}
static json names() {
    // the hierarchy as the simulator interface shows it
    json o = json::array();
    std::function<void(vpiHandle)> walk = [&](vpiHandle h) {
        json m;
        m["name"] = vpi->vpi_get_str(vpiFullName, h);
        m["module"] = vpi->vpi_get(vpiType, h) == vpiModule;
        m["same"] = by_name(m["name"]) == h;
        m["sigs"] = json::array();
        if (auto it = vpi->vpi_iterate(vpiNet, h))
            while (auto s = vpi->vpi_scan(it)) {
                std::string n = vpi->vpi_get_str(vpiName, s);
                m["sigs"].push_back({{"n", n}, {"w", vpi->vpi_get(vpiSize, s)}, {"net", vpi->vpi_get(vpiType, s) == vpiNet}, {"same", by_name(m["name"].get<std::string>() + "." + n) == s}});
            }
        o.push_back(m);
        if (auto it = vpi->vpi_iterate(vpiModule, h))
            while (auto s = vpi->vpi_scan(it)) walk(s);
    };
    if (auto it = vpi->vpi_iterate(vpiModule, nullptr))
        while (auto s = vpi->vpi_scan(it)) walk(s);
    return o;
}

int main() {
    for (std::string l; std::getline(std::cin, l);) {
        job = json::parse(l);
        out = json::array();
        json res;
        fired = 0;
        cbs.clear();
        base = job["base"];
        auto w = std::make_unique<Wave>(job["vcd"].get<std::string>());
        res["parsed"] = w->ok;
        auto v = std::make_unique<replay::ReplayVPIProvider>(std::move(w));
        vpi = v.get();
        auto list = job["list"].get<std::string>();
        if (list == "before") res["names"] = names();
        std::vector<std::string> arrays = job["arrays"];
        vpi->build_array_table(arrays);
        vpi->set_timestamp(real_time(job["start"]));
        replay::EmulationEngine engine(vpi);
        for (auto r : {cbStartOfSimulation, cbEndOfSimulation}) {
            s_cb_data c{};
            c.reason = r;
            c.cb_rtn = r == cbStartOfSimulation ? on_start : on_end;
            vpi->vpi_register_cb(&c);
        }
        engine.run(true);
        if (list == "after") res["names"] = names();
        res["log"] = out;
        std::cout << res.dump() << std::endl;
    }
}
