// A small deterministic simulator behind hgdb's VPI abstraction.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <nlohmann/json.hpp>
#include <set>
#include <string>
#include <vector>

#include "rtl.hh"
#include "sv_vpi_user.h"
#include "vpi_user.h"

using json = nlohmann::json;

struct Obj {
    enum Kind { Module, Signal, Array, Element, Iter, Cb, Tf, ArgStr, ArgInt, ArgMod } kind;
    std::string full, name, def;
    Obj *parent = nullptr;
    std::vector<Obj *> kids;     // modules
    std::vector<Obj *> sigs;     // signals (and arrays) of a module, in order
    std::vector<Obj *> elems;    // elements of an array
    int width = 32;
    int64_t value = 0;
    // iterators
    std::vector<Obj *> items;
    size_t pos = 0;
    // callbacks
    s_cb_data cb{};
    bool removed = false;
    int index = 0;
};

class MockSim : public hgdb::AVPIProvider {
public:
    // design: {"product":..,"modules":[{"name":"tb.dut","def":"mod"}...],
    //  "signals":[{"name":"tb.dut.a","width":4,"array":0}],
    //  "clocks":["tb.clk"], "stim":[[v...]...] , "rewind":bool, "defname":bool, "argv":[...]}
    explicit MockSim(const json &d) {
        product_ = d.value("product", "RTLMock");
        rewind_ok_ = d.value("rewind", true);
        defname_ = d.value("defname", true);
        for (auto const &a : d.value("argv", json::array())) argv_.emplace_back(a.get<std::string>());
        for (auto const &m : d["modules"]) add_module(m["name"], m["def"]);
        for (auto const &s : d["signals"])
            add_signal(s["name"], s.value("width", 32), s.value("array", 0));
        // they take turns
        for (auto const &c : d.value("clocks", json::array())) {
            clocks_.emplace_back(c.get<std::string>());
            if (!by_name_.count(clocks_.back())) add_signal(clocks_.back(), 1, 0);
        }
        stim_ = d.value("stim", json::array());
        for (auto const &n : d.value("stim_names", json::array())) stim_names_.emplace_back(n.get<std::string>());
        period_ = d.value("period", 10);
        t0_ = d.value("t0", 10);
        if (!stim_.empty()) load(0);  // cycle 0 is the state before the first edge
        cycle_ = 0;
        time_ = 0;
    }

    void add_arg(const std::string &a) { argv_.emplace_back(a); }

    // ---- simulation control (simulator thread) ----
    uint64_t edge_time(uint64_t k) const { return k == 0 ? 0 : t0_ + (k - 1) * period_; }
    void load(uint64_t k) {
        std::lock_guard g(m_);
        if (stim_.empty()) return;
        auto const &row = stim_[k % stim_.size()];
        for (size_t i = 0; i < stim_names_.size(); i++) by_name_.at(stim_names_[i])->value = row[i].get<int64_t>();
    }
    void posedge() {
        uint64_t k;
        {
            std::lock_guard g(m_);
            for (auto const &c : clocks_) by_name_.at(c)->value = 0;  // after going back the clock may still be high
            k = ++cycle_;
            time_ = edge_time(k);
        }
        load(k);
        fire_clock(1);
        if (verilator()) fire(cbNextSimTime);
    }
    void negedge() {
        {
            std::lock_guard g(m_);
            time_ = edge_time(cycle_) + period_ / 2;
        }
        fire_clock(0);
    }
    void fire_clock(int v) {
        std::vector<Obj *> cbs;
        {
            std::lock_guard g(m_);
            if (clocks_.empty()) return;
            auto *c = by_name_.at(clocks_[cycle_ % clocks_.size()]);
            if (c->value == v) return;
            c->value = v;
            for (auto *cb : cbs_)
                if (!cb->removed && cb->cb.reason == cbValueChange && cb->cb.obj == h(c)) cbs.push_back(cb);
        }
        for (auto *cb : cbs) {
            if (cb->removed) continue;
            s_cb_data data = cb->cb;
            s_vpi_value val{};
            val.format = vpiIntVal;
            val.value.integer = v;
            s_vpi_time t{};
            data.value = &val;
            data.time = &t;
            clock_cb_calls_++;
            data.cb_rtn(&data);
        }
    }
    // start and end of the simulation, and Verilator's next time step
    void fire(int reason) {
        std::vector<s_cb_data> cbs;
        {
            std::lock_guard g(m_);
            for (auto *cb : cbs_)
                if (!cb->removed && cb->cb.reason == reason) cbs.push_back(cb->cb);
        }
        for (auto &cb : cbs) cb.cb_rtn(&cb);
    }
    // a call of a registered system task
    bool call_tf(const std::string &name) {
        std::pair<PLI_INT32 (*)(PLI_BYTE8 *), PLI_BYTE8 *> f;
        {
            std::lock_guard g(m_);
            if (!tfs_.count(name)) return false;
            f = tfs_[name];
        }
        f.first(f.second);
        return true;
    }
    bool verilator() const { return product_ == "Verilator"; }
    uint64_t time() {
        std::lock_guard g(m_);
        return time_;
    }
    uint64_t cycle() {
        std::lock_guard g(m_);
        return cycle_;
    }
    int64_t peek(const std::string &n) {
        std::lock_guard g(m_);
        return by_name_.at(n)->value;
    }
    void poke(const std::string &n, int64_t v) {
        std::lock_guard g(m_);
        by_name_.at(n)->value = v;
    }
    json take_ops() {
        std::lock_guard g(m_);
        json r = json::array();
        for (auto o : ops_) r.push_back(o);
        ops_.clear();
        return r;
    }
    bool finished() {
        std::lock_guard g(m_);
        for (auto o : ops_)
            if (o == vpiFinish) return true;
        return false;
    }
    int live_clock_cbs() {
        std::lock_guard g(m_);
        int n = 0, clocked = 0;
        for (auto *cb : cbs_)
            if (!cb->removed && (cb->cb.reason == cbValueChange || cb->cb.reason == cbNextSimTime)) {
                n++;
                for (auto const &c : clocks_) clocked += cb->cb.obj == h(by_name_.at(c));
            }
        return clocked && clocked < int(clocks_.size()) ? -1 : n;
    }
    // arguments of the $hgdb_assert system task call being executed
    void set_tf(const std::string &mod, const std::string &file, int line, int col) {
        std::lock_guard g(m_);
        tf_ = mk(Obj::Tf);
        auto *m = mk(Obj::ArgMod);
        m->full = mod;
        auto *f = mk(Obj::ArgStr);
        f->full = file;
        tf_->items = {m, f};
        auto *l = mk(Obj::ArgInt);
        l->value = line;
        tf_->items.push_back(l);
        if (col) {
            auto *c = mk(Obj::ArgInt);
            c->value = col;
            tf_->items.push_back(c);
        }
    }

    // ---- VPI ----
    void vpi_get_value(vpiHandle expr, p_vpi_value v) override {
        std::lock_guard g(m_);
        auto *o = find(expr);
        int64_t val = o ? o->value : 0;
        static thread_local std::string buf;
        if (v->format == vpiIntVal) {
            v->value.integer = static_cast<int>(val);
        } else if (v->format == vpiHexStrVal) {
            char tmp[32];
            snprintf(tmp, sizeof tmp, "%llX", (unsigned long long)val);
            buf = tmp;
            v->value.str = buf.data();
        } else if (v->format == vpiBinStrVal) {
            buf.clear();
            int w = o ? o->width : 1;
            for (int i = w - 1; i >= 0; i--) buf.push_back(((val >> i) & 1) ? '1' : '0');
            v->value.str = buf.data();
        } else if (v->format == vpiStringVal) {
            buf = o ? o->full : "";
            v->value.str = buf.data();
        }
    }
    PLI_INT32 vpi_get(PLI_INT32 property, vpiHandle object) override {
        std::lock_guard g(m_);
        auto *o = find(object);
        if (!o) {
            unknown_handle_++;
            return vpiUndefined;
        }
        if (property == vpiType) {
            switch (o->kind) {
                case Obj::Module: return vpiModule;
                case Obj::Signal: return vpiNet;
                case Obj::Array: return vpiRegArray;
                case Obj::Element: return vpiReg;
                case Obj::ArgMod: return vpiModule;
                case Obj::ArgStr:
                case Obj::ArgInt: return vpiConstant;
                default: return vpiUndefined;
            }
        } else if (property == vpiConstType) {
            return o->kind == Obj::ArgStr ? vpiStringConst : vpiIntConst;
        } else if (property == vpiSize) {
            if (o->kind == Obj::Array) return (int)o->elems.size();
            return o->width;
        } else if (property == vpiVector) {
            return o->kind == Obj::Array;
        }
        return vpiUndefined;
    }
    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle ref) override {
        std::lock_guard g(m_);
        std::vector<Obj *> items;
        auto *o = find(ref);
        if (type == vpiModule) {
            items = o ? o->kids : tops_;
        } else if (type == (verilator() ? vpiReg : vpiNet)) {
            if (o)
                for (auto *s : o->sigs)
                    if (s->kind == Obj::Signal) items.push_back(s);
        } else if (type == vpiRegArray || type == vpiNetArray) {
            if (o && type == vpiRegArray)
                for (auto *s : o->sigs)
                    if (s->kind == Obj::Array) items.push_back(s);
        } else if (type == vpiRange) {
            if (o) items = o->elems;
        } else if (type == vpiArgument) {
            if (o) items = o->items;
        }
        if (items.empty()) return nullptr;
        auto *it = mk(Obj::Iter);
        it->items = items;
        return h(it);
    }
    vpiHandle vpi_scan(vpiHandle iterator) override {
        std::lock_guard g(m_);
        auto *o = find(iterator);
        if (!o || o->pos >= o->items.size()) return nullptr;
        return h(o->items[o->pos++]);
    }
    char *vpi_get_str(PLI_INT32 property, vpiHandle object) override {
        std::lock_guard g(m_);
        static thread_local std::string buf;
        buf.clear();
        auto *o = find(object);
        if (o) {
            if (property == vpiDefName) buf = o->def;
            if (property == vpiFullName) buf = o->full;
            if (property == vpiName) buf = o->name;
        }
        return buf.data();
    }
    vpiHandle vpi_handle_by_name(char *name, vpiHandle) override {
        std::lock_guard g(m_);
        auto it = by_name_.find(name);
        return it == by_name_.end() ? nullptr : h(it->second);
    }
    vpiHandle vpi_handle_by_index(vpiHandle object, PLI_INT32 index) override {
        std::lock_guard g(m_);
        auto *o = find(object);
        if (!o || index < 0 || (size_t)index >= o->elems.size()) return nullptr;
        return h(o->elems[index]);
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info info) override {
        argvp_.clear();
        for (auto &a : argv_) argvp_.push_back(a.data());
        info->argc = (int)argvp_.size();
        info->argv = argvp_.data();
        info->product = product_.data();
        info->version = version_.data();
        return 1;
    }
    void vpi_get_time(vpiHandle, p_vpi_time t) override {
        std::lock_guard g(m_);
        t->low = time_ & 0xFFFFFFFFu;
        t->high = time_ >> 32;
    }
    vpiHandle vpi_register_cb(p_cb_data data) override {
        std::lock_guard g(m_);
        auto *o = mk(Obj::Cb);
        o->cb = *data;
        cbs_.push_back(o);
        return h(o);
    }
    PLI_INT32 vpi_remove_cb(vpiHandle cb) override {
        std::lock_guard g(m_);
        auto *o = find(cb);
        if (o && o->kind == Obj::Cb && !o->removed) {
            o->removed = true;
            return 1;
        }
        return 0;
    }
    PLI_INT32 vpi_release_handle(vpiHandle) override { return 1; }
    PLI_INT32 vpi_control(PLI_INT32 op, ...) override {
        std::lock_guard g(m_);
        ops_.push_back(op);
        return 1;
    }
    vpiHandle vpi_put_value(vpiHandle object, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        std::lock_guard g(m_);
        auto *o = find(object);
        if (!o || v->format != vpiIntVal) return (vpiHandle)std::numeric_limits<uint64_t>::max();
        int64_t val = v->value.integer;
        if (o->width < 32) val &= (1ll << o->width) - 1;
        o->value = val;
        return nullptr;
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data d) override {
        std::lock_guard g(m_);
        tfs_[d->tfname] = {d->calltf, d->user_data};
        return h(mk(Obj::Tf));
    }
    vpiHandle vpi_handle(int type, vpiHandle) override {
        std::lock_guard g(m_);
        return type == vpiSysTfCall && tf_ ? h(tf_) : nullptr;
    }
    bool vpi_rewind(rewind_data *r) override {
        int64_t k = -1;
        {
            std::lock_guard g(m_);
            rewinds_++;
            if (!rewind_ok_) return false;
            for (int64_t i = 1; i <= (int64_t)cycle_; i++)
                if (edge_time(i) < r->time) k = i;
            if (k < 1) return false;
            // the clocks handed over have to be those of the design
            std::set<vpiHandle> given(r->clock_signals.begin(), r->clock_signals.end()), mine;
            for (auto const &c : clocks_) mine.insert(h(by_name_.at(c)));
            if (given != mine) return false;
            cycle_ = k;
            time_ = edge_time(k);
            for (auto const &c : clocks_) by_name_.at(c)->value = c == clocks_[cycle_ % clocks_.size()];
        }
        load(k);
        return true;
    }
    bool has_defname() override { return defname_; }
    std::atomic<int> clock_cb_calls_{0};
    std::atomic<int> rewinds_{0};
    std::atomic<int> unknown_handle_{0};

private:
    Obj *mk(Obj::Kind k) {
        pool_.emplace_back(std::make_unique<Obj>());
        auto *o = pool_.back().get();
        o->kind = k;
        objs_.insert(o);
        return o;
    }
    static vpiHandle h(Obj *o) { return reinterpret_cast<vpiHandle>(o); }
    Obj *find(vpiHandle v) {
        auto *o = reinterpret_cast<Obj *>(v);
        return objs_.count(o) ? o : nullptr;
    }
    static std::string leaf(const std::string &n) {
        auto p = n.find_last_of('.');
        return p == std::string::npos ? n : n.substr(p + 1);
    }
    void add_module(const std::string &n, const std::string &def) {
        auto *o = mk(Obj::Module);
        o->full = n;
        o->name = leaf(n);
        o->def = def;
        by_name_[n] = o;
        auto p = n.find_last_of('.');
        if (p == std::string::npos)
            tops_.push_back(o);
        else {
            o->parent = by_name_.at(n.substr(0, p));
            o->parent->kids.push_back(o);
        }
    }
    void add_signal(const std::string &n, int width, int arr) {
        auto *o = mk(arr ? Obj::Array : Obj::Signal);
        o->full = n;
        o->name = leaf(n);
        o->width = width;
        by_name_[n] = o;
        auto p = n.find_last_of('.');
        if (p != std::string::npos && by_name_.count(n.substr(0, p))) {
            o->parent = by_name_.at(n.substr(0, p));
            o->parent->sigs.push_back(o);
        }
        for (int i = 0; i < arr; i++) {
            auto *e = mk(Obj::Element);
            e->full = n + "[" + std::to_string(i) + "]";
            e->name = o->name + "[" + std::to_string(i) + "]";
            e->width = width;
            e->index = i;
            o->elems.push_back(e);
            by_name_[e->full] = e;
        }
    }
    std::mutex m_;
    std::vector<std::unique_ptr<Obj>> pool_;
    std::set<Obj *> objs_;
    std::map<std::string, Obj *> by_name_;
    std::vector<Obj *> tops_, cbs_;
    Obj *tf_ = nullptr;
    std::vector<int> ops_;
    std::map<std::string, std::pair<PLI_INT32 (*)(PLI_BYTE8 *), PLI_BYTE8 *>> tfs_;
    std::vector<std::string> argv_;
    std::vector<char *> argvp_;
    std::string product_, version_ = "0.1";
    std::vector<std::string> clocks_;
    json stim_;
    std::vector<std::string> stim_names_;
    uint64_t time_ = 0, cycle_ = 0, period_ = 10, t0_ = 10;
    bool rewind_ok_ = true, defname_ = true;
};
