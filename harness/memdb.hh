// In-memory symbol table used to drive the debugger with any design.
#pragma once
#include <nlohmann/json.hpp>

#include "symbol.hh"
using json = nlohmann::json;

// {"bps":[{"id","inst","file","line","col","cond","trig","ctx":[{"name","value","rtl","type","depth"}]}]  (execution order)
//  "insts":[{"id","name","gen":[{"name","value","rtl"}]}], "ann":{"clock":[..]},
//  "assign":[{"var","bp","res":[[id,var,cond]...]}], "files":[...]}
class MemDB : public hgdb::SymbolTableProvider {
public:
    explicit MemDB(json d) : d_(std::move(d)) {}
    hgdb::BreakPoint mk(const json &b) {
        hgdb::BreakPoint bp;
        bp.id = b["id"];
        bp.instance_id = std::make_unique<uint32_t>(b["inst"].get<uint32_t>());
        bp.filename = resolve_filename_to_client(b["file"].get<std::string>());
        bp.line_num = b["line"];
        bp.column_num = b.value("col", 0);
        bp.condition = b.value("cond", "");
        bp.trigger = b.value("trig", "");
        return bp;
    }
    template <typename F>
    std::vector<hgdb::BreakPoint> sel(F f) {
        std::vector<hgdb::BreakPoint> r;
        for (auto const &b : d_["bps"])
            if (f(b)) r.push_back(mk(b));
        return r;
    }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string &fn, uint32_t line) override {
        return get_breakpoints(fn, line, 0);
    }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string &fn, uint32_t line, uint32_t col) override {
        auto f = resolve_filename_to_db(fn);
        return sel([&](auto const &b) {
            return b["file"] == f && b["line"] == line && (col == 0 || b.value("col", 0) == (int)col);
        });
    }
    std::vector<hgdb::BreakPoint> get_breakpoints(const std::string &fn) override {
        auto f = resolve_filename_to_db(fn);
        return sel([&](auto const &b) { return b["file"] == f; });
    }
    std::optional<hgdb::BreakPoint> get_breakpoint(uint32_t id) override {
        for (auto const &b : d_["bps"])
            if (b["id"] == id) return mk(b);
        return std::nullopt;
    }
    std::optional<std::string> get_instance_name(uint32_t id) override {
        for (auto const &i : d_["insts"])
            if (i["id"] == id) return i["name"].get<std::string>();
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(const std::string &n) override {
        for (auto const &i : d_["insts"])
            if (i["name"] == n) return i["id"].get<uint64_t>();
        return std::nullopt;
    }
    std::optional<uint64_t> get_instance_id(uint64_t bp) override {
        for (auto const &b : d_["bps"])
            if (b["id"] == bp) return b["inst"].get<uint64_t>();
        return std::nullopt;
    }
    std::vector<std::string> get_filenames() override {
        std::vector<std::string> r;
        for (auto const &b : d_["bps"]) {
            auto f = resolve_filename_to_client(b["file"].get<std::string>());
            if (std::find(r.begin(), r.end(), f) == r.end()) r.push_back(f);
        }
        return r;
    }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        for (auto const &b : d_["bps"]) {
            if (b["id"] != id) continue;
            for (auto const &c : b.value("ctx", json::array())) {
                hgdb::ContextVariable cv{c["name"].get<std::string>(), std::make_unique<uint32_t>(id),
                                         std::make_unique<uint32_t>(0), c.value("type", 0u), c.value("depth", 1u)};
                hgdb::Variable v{0, c["value"].get<std::string>(), c.value("rtl", true)};
                r.emplace_back(std::move(cv), std::move(v));
            }
        }
        return r;
    }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t id) override {
        std::vector<GeneratorVariableInfo> r;
        for (auto const &i : d_["insts"]) {
            if (i["id"] != id) continue;
            for (auto const &c : i.value("gen", json::array())) {
                hgdb::GeneratorVariable gv{c["name"].get<std::string>(), std::make_unique<uint32_t>(id),
                                           std::make_unique<uint32_t>(0), ""};
                hgdb::Variable v{0, c["value"].get<std::string>(), c.value("rtl", true)};
                r.emplace_back(std::move(gv), std::move(v));
            }
        }
        return r;
    }
    std::vector<std::string> get_instance_names() override {
        std::vector<std::string> r;
        for (auto const &i : d_["insts"]) r.push_back(i["name"]);
        return r;
    }
    std::vector<std::string> get_annotation_values(const std::string &n) override {
        std::vector<std::string> r;
        if (d_.contains("ann") && d_["ann"].contains(n))
            for (auto const &v : d_["ann"][n]) r.push_back(v);
        return r;
    }
    std::vector<std::string> get_all_array_names() override { return {}; }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(
        const std::string &var, uint32_t bp) override {
        std::vector<std::tuple<uint32_t, std::string, std::string>> r;
        for (auto const &a : d_.value("assign", json::array()))
            if (a["var"] == var && a["bp"] == bp)
                for (auto const &e : a["res"]) r.emplace_back(e[0], e[1], e[2]);
        return r;
    }
    std::vector<uint32_t> execution_bp_orders() override {
        std::vector<uint32_t> r;
        for (auto const &b : d_["bps"]) r.push_back(b["id"]);
        return r;
    }
    bool bad() const override { return false; }

private:
    json d_;
};
