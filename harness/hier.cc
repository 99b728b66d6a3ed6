// Hierarchies and names: line {"design":..} starts a design, other lines {"op":..} are steps -> one answer per line.
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <set>

#include "db.hh"
#include "namespace.hh"
#include "rtl.hh"
#include "sv_vpi_user.h"
#include "vpi_user.h"
using json = nlohmann::json;
using namespace hgdb;

struct Node {
    enum Kind { Mod, Sig, Iter } kind;
    std::string full, name, def, k;
    bool iface = false;
    std::vector<Node *> kids, sigs;
    int sig = -1;
    int off = 0, w = 1;
    std::vector<int> dims;
    bool bit = false, elem = false;
    std::vector<Node *> mems, elems;
    std::vector<Node *> items;
    size_t pos = 0;
    int total() const {
        int t = w;
        for (auto x : dims) t *= x;
        return t;
    }
};

class Sim : public AVPIProvider {
public:
    explicit Sim(const json &d) : d_(d), product_(d["product"]) {
        bitsel_ = d["bitsel"], defs_ = d["defs"], elemnames_ = d["elemnames"];
        for (auto &m : d["mods"]) {
            auto *n = mk(Node::Mod);
            n->full = m["full"];
            n->def = m["def"];
            n->iface = m["iface"];
            n->name = leaf(n->full);
            mods_.push_back(n);
            names_[n->full] = n;
            auto p = n->full.rfind('.');
            if (p == std::string::npos) tops_.push_back(n);
            else names_.at(n->full.substr(0, p))->kids.push_back(n);
        }
        int i = 0;
        for (auto &s : d["sigs"]) {
            auto *m = mods_.at(s["mod"].get<int>() - 1);
            int off = 0;
            auto *n = build(s, i++, off, m->full + "." + s["n"].get<std::string>(), s["n"]);
            m->sigs.push_back(n);
            vals.emplace_back(off, '0');
        }
    }
    std::vector<std::string> vals;   // lowest bit first
    int bogus = 0;

    void vpi_get_value(vpiHandle h, p_vpi_value v) override {
        static thread_local std::string buf;
        buf.clear();
        auto *o = find(h);
        auto b = o && o->kind == Node::Sig ? vals[o->sig].substr(o->off, o->total()) : "";
        if (v->format == vpiIntVal) {
            uint32_t r = 0;
            for (size_t i = 0; i < b.size() && i < 32; i++) r |= uint32_t(b[i] - '0') << i;
            v->value.integer = (PLI_INT32)r;
        } else if (v->format == vpiBinStrVal) {
            buf.assign(b.rbegin(), b.rend());
            v->value.str = buf.data();
        } else if (v->format == vpiHexStrVal) {
            for (size_t i = 0; i < b.size(); i += 4) {
                int x = 0;
                for (size_t j = i; j < i + 4 && j < b.size(); j++) x |= (b[j] - '0') << (j - i);
                buf.insert(buf.begin(), "0123456789ABCDEF"[x]);
            }
            v->value.str = buf.data();
        } else if (v->format == vpiVectorVal) {
            static thread_local std::vector<s_vpi_vecval> vec;
            vec.assign((b.size() + 31) / 32, {0, 0});
            for (size_t i = 0; i < b.size(); i++) vec[i / 32].aval |= uint32_t(b[i] - '0') << (i % 32);
            v->value.vector = vec.data();
        } else {
            v->value.str = buf.data();
        }
    }
    PLI_INT32 vpi_get(PLI_INT32 p, vpiHandle h) override {
        auto *o = find(h);
        if (!o) return vpiUndefined;
        bool comp = !o->dims.empty();
        if (p == vpiType) {
            if (o->kind == Node::Mod) return o->iface && product_ != "Verilator" ? vpiInterface : vpiModule;
            if (o->k == "struct") return o->sig % 2 ? vpiStructVar : vpiStructNet;
            if (o->k == "arr" && comp) return o->elem ? (int)vpiRegArray : d_["arrtype"] == "mem" ? (int)vpiMemory : d_["arrtype"] == "net" ? (int)vpiNetArray : (int)vpiRegArray;
            if (o->bit) return vpiRegBit;
            if (o->k == "arr" && d_["arrtype"] == "mem") return vpiMemoryWord;
            return o->k == "net" && product_ != "Verilator" ? vpiNet : vpiReg;
        }
        if (p == vpiSize) {
            if (o->kind == Node::Mod) return vpiUndefined;
            return o->k == "arr" && comp ? o->dims[0] : o->total();
        }
        if (p == vpiVector) return o->k == "arr" && comp ? 0 : o->total() > 1;
        return vpiUndefined;
    }
    vpiHandle vpi_iterate(PLI_INT32 type, vpiHandle ref) override {
        std::vector<Node *> it;
        auto *o = find(ref);
        if (ref && !o) {
            bogus++;
            return nullptr;
        }
        if (type == vpiModule) {
            for (auto *m : o ? o->kids : tops_)
                if (!m->iface || product_ == "Verilator") it.push_back(m);
        } else if (o && o->kind == Node::Mod && (type == vpiNet || type == vpiReg || type == vpiMemory || type == vpiNetArray || type == vpiRegArray)) {
            for (auto *s : o->sigs)
                if (vpi_get(vpiType, (vpiHandle)s) == type) it.push_back(s);
        } else if (o && type == vpiMember && o->k == "struct") {
            it = o->mems;
        } else if (o && type == vpiRange) {
            it = o->elems;
        }
        if (it.empty()) return nullptr;
        auto *n = mk(Node::Iter);
        n->items = it;
        return (vpiHandle)n;
    }
    vpiHandle vpi_scan(vpiHandle h) override {
        auto *o = find(h);
        if (!o || o->pos >= o->items.size()) return nullptr;
        return (vpiHandle)o->items[o->pos++];
    }
    char *vpi_get_str(PLI_INT32 p, vpiHandle h) override {
        static thread_local std::string buf;
        auto *o = find(h);
        if (!o || (p == vpiDefName && !defs_)) return nullptr;
        buf = p == vpiDefName ? o->def : p == vpiFullName ? o->full : o->name;
        return buf.data();
    }
    vpiHandle vpi_handle_by_name(char *n, vpiHandle) override {
        auto it = names_.find(n);
        return it == names_.end() ? nullptr : (vpiHandle)it->second;
    }
    vpiHandle vpi_handle_by_index(vpiHandle h, PLI_INT32 i) override {
        auto *o = find(h);
        if (!o || o->kind != Node::Sig || o->k == "struct" || i < 0) return nullptr;
        if (!o->dims.empty()) return (size_t)i < o->elems.size() ? (vpiHandle)o->elems[i] : nullptr;
        if (!bitsel_ || o->w == 1 || i >= o->w) return nullptr;
        auto &b = bits_[{o, i}];
        if (!b) {
            b = mk(Node::Sig);
            *b = *o;
            b->elems.clear();
            b->full = o->full + "[" + std::to_string(i) + "]";
            b->name = o->name + "[" + std::to_string(i) + "]";
            b->off = o->off + i;
            b->w = 1;
            b->bit = true;
        }
        return (vpiHandle)b;
    }
    PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info info) override {
        info->argc = 0;
        info->argv = nullptr;
        info->product = product_.data();
        info->version = version_.data();
        return 1;
    }
    void vpi_get_time(vpiHandle, p_vpi_time t) override { t->low = t->high = 0; }
    vpiHandle vpi_register_cb(p_cb_data) override { return nullptr; }
    PLI_INT32 vpi_remove_cb(vpiHandle) override { return 0; }
    PLI_INT32 vpi_release_handle(vpiHandle) override { return 1; }
    PLI_INT32 vpi_control(PLI_INT32, ...) override { return 1; }
    vpiHandle vpi_put_value(vpiHandle h, p_vpi_value v, p_vpi_time, PLI_INT32) override {
        auto *o = find(h);
        if (!o || o->kind != Node::Sig) {
            bogus++;   // a real simulator has no reason to survive this
            return nullptr;
        }
        auto n = o->total();
        for (int i = 0; i < n; i++) {
            int b = 0;
            if (v->format == vpiIntVal) b = i < 32 ? (uint32_t(v->value.integer) >> i) & 1 : 0;
            else if (v->format == vpiVectorVal) b = (uint32_t(v->value.vector[i / 32].aval) >> (i % 32)) & 1;
            vals[o->sig][o->off + i] = '0' + b;
        }
        return nullptr;
    }
    vpiHandle vpi_register_systf(p_vpi_systf_data) override { return nullptr; }
    vpiHandle vpi_handle(int, vpiHandle) override { return nullptr; }
    bool has_defname() override { return defs_; }

private:
    Node *mk(Node::Kind k) {
        pool_.emplace_back(std::make_unique<Node>());
        pool_.back()->kind = k;
        objs_.insert(pool_.back().get());
        return pool_.back().get();
    }
    Node *find(vpiHandle h) {
        auto *o = reinterpret_cast<Node *>(h);
        return objs_.count(o) ? o : nullptr;
    }
    static std::string leaf(const std::string &n) {
        auto p = n.rfind('.');
        return p == std::string::npos ? n : n.substr(p + 1);
    }
    Node *build(const json &s, int sig, int &off, const std::string &full, const std::string &name) {
        auto *n = mk(Node::Sig);
        n->k = s["k"];
        n->sig = sig;
        n->full = full;
        n->name = name;
        n->off = off;
        n->w = s["w"];
        names_[full] = n;
        if (n->k == "struct") {
            for (auto &m : s["mems"]) n->mems.push_back(build(m, sig, off, full + "." + m["n"].get<std::string>(), m["n"]));
            n->w = off - n->off;
        } else {
            n->dims = s["dims"].get<std::vector<int>>();
            elements(n);
            off += n->total();
        }
        return n;
    }
    void elements(Node *n) {
        if (n->dims.empty()) return;
        auto rest = std::vector<int>(n->dims.begin() + 1, n->dims.end());
        for (int i = 0; i < n->dims[0]; i++) {
            auto *e = mk(Node::Sig);
            e->k = n->k;
            e->sig = n->sig;
            e->w = n->w;
            e->dims = rest;
            e->off = n->off + i * e->total();
            e->elem = true;
            e->full = n->full + "[" + std::to_string(i) + "]";
            e->name = n->name + "[" + std::to_string(i) + "]";
            if (elemnames_) names_[e->full] = e;
            elements(e);
            n->elems.push_back(e);
        }
    }
    json d_;
    std::string product_, version_ = "1";
    bool bitsel_, defs_, elemnames_;
    std::vector<std::unique_ptr<Node>> pool_;
    std::set<Node *> objs_;
    std::map<std::string, Node *> names_;
    std::map<std::pair<Node *, int>, Node *> bits_;
    std::vector<Node *> mods_, tops_;
};

// only the instances matter
struct Names : SymbolTableProvider {
    std::vector<std::string> names;
    std::vector<BreakPoint> get_breakpoints(const std::string &, uint32_t) override { return {}; }
    std::vector<BreakPoint> get_breakpoints(const std::string &, uint32_t, uint32_t) override { return {}; }
    std::vector<BreakPoint> get_breakpoints(const std::string &) override { return {}; }
    std::optional<BreakPoint> get_breakpoint(uint32_t) override { return std::nullopt; }
    std::optional<std::string> get_instance_name(uint32_t) override { return std::nullopt; }
    std::optional<uint64_t> get_instance_id(const std::string &) override { return std::nullopt; }
    std::optional<uint64_t> get_instance_id(uint64_t) override { return std::nullopt; }
    std::vector<std::string> get_filenames() override { return {}; }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t) override { return {}; }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t) override { return {}; }
    std::vector<std::string> get_instance_names() override { return names; }
    std::vector<std::string> get_annotation_values(const std::string &) override { return {}; }
    std::vector<std::string> get_all_array_names() override { return {}; }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(const std::string &, uint32_t) override { return {}; }
    std::vector<uint32_t> execution_bp_orders() override { return {}; }
    bool bad() const override { return false; }
};

json read(RTLSimulatorClient &rtl, const std::string &n) {
    json o = json::object();
    o["valid"] = rtl.is_valid_signal(n);
    auto *h = rtl.get_handle(n);
    if (!h) {
        auto v = rtl.get_value(n);
        auto s = rtl.get_str_value(n);
        o["absent"] = !v && !s;
        return o;
    }
    if (auto v = rtl.get_value(n)) o["v"] = std::to_string(*v);
    if (auto v = rtl.get_value(h)) o["hv"] = std::to_string(*v);
    if (auto s = rtl.get_str_value(n)) o["s"] = *s;
    if (auto w = rtl.get_signal_width(h)) o["w"] = *w;
    return o;
}

int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    std::shared_ptr<Sim> sim;
    std::unique_ptr<DebuggerNamespaceManager> mgr;
    std::map<std::pair<std::string, std::string>, uint32_t> ids;
    json design;
    auto at = [&](const json &o) -> RTLSimulatorClient * {
        auto it = ids.find({o[0].get<std::string>(), o[1].get<std::string>()});
        return it == ids.end() ? nullptr : (*mgr)[it->second]->rtl.get();
    };
    auto listed = [&](const std::vector<DebuggerNamespace *> &v) {
        json r = json::array();
        for (auto *n : v)
            for (auto &[k, id] : ids)
                if (id == n->id) r.push_back({k.first, k.second});
        return r;
    };
    while (std::getline(std::cin, line)) {
        auto in = json::parse(line);
        json o = json::object();
        if (in.contains("design")) {
            design = in["design"];
            sim = std::make_shared<Sim>(design);
            mgr = std::make_unique<DebuggerNamespaceManager>();
            mgr->add_namespace(sim);
            ids.clear();
            for (size_t i = 0; i < sim->vals.size(); i++) sim->vals[i] = in["vals"][i];
            continue;
        }
        std::string op = in["op"];
        if (op == "connect") {
            Names t;
            for (auto &n : in["names"]) t.names.push_back(n);
            mgr->compute_instance_mapping(&t);
            auto old = ids;
            ids.clear();
            std::set<uint32_t> used;
            o["places"] = json::array();
            for (auto &[top, m] : mgr->get_top_mapping())
                for (auto &[path, id] : m) {
                    if (top.empty() && path.empty()) continue;
                    ids[{top, path}] = id;
                    if (!used.insert(id).second || id >= mgr->size()) o["odd"] = "ids";
                    o["places"].push_back({top, path});
                }
            o["moved"] = old != ids;
        } else if (op == "change") {
            sim->vals[in["sig"].get<int>() - 1] = in["bits"];
        } else if (op == "places") {
            o["places"] = listed(mgr->get_namespaces(in["name"].get<std::string>()));
        } else if (op == "find") {
            auto *n = mgr->look_up(in["path"]);
            o["places"] = n ? listed({n}) : json::array();
        } else if (auto *rtl = at(in["at"])) {
            if (op == "read") {
                o = json::array();
                for (auto &n : in["names"]) o.push_back(read(*rtl, n));
            } else if (op == "put") {
                uint64_t v = std::stoull(in["v"].get<std::string>());
                o["ok"] = rtl->set_value(in["name"].get<std::string>(), (int64_t)v);
            } else if (op == "expand") {
                o["parts"] = json::array();
                for (auto &[f, r] : rtl->resolve_rtl_variable("f", in["name"])) {
                    auto x = read(*rtl, r);
                    x["front"] = f;
                    o["parts"].push_back(x);
                }
            }
        } else {
            o["odd"] = "no such place";
        }
        if (sim->bogus) o["bogus"] = true;
        std::cout << o.dump() << "\n";
    }
}
