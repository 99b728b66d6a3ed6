// Expressions: {"t": text, "envs": [{name: "int64 as decimal text"}]} per line -> {"ok":, "names": [], "v": ["..."]}
// A line {"mark": x} is echoed (so that a crash can be located).
#include <iostream>
#include <nlohmann/json.hpp>
#include "eval.hh"
using json = nlohmann::json;
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        auto j = json::parse(line);
        json out;
        std::string text = j.contains("gen") ? std::string() : j["t"].get<std::string>();
        if (j.contains("gen")) {   // pre * n + mid + post * n
            auto &g = j["gen"];
            for (int i = 0; i < g["n"].get<int>(); i++) text += g["pre"].get<std::string>();
            text += g["mid"].get<std::string>();
            for (int i = 0; i < g["n"].get<int>(); i++) text += g["post"].get<std::string>();
        }
        hgdb::DebugExpression e(text);
        out["ok"] = e.correct();
        if (e.correct()) {
            std::vector<std::string> names(e.symbols().begin(), e.symbols().end());
            std::sort(names.begin(), names.end());
            out["names"] = names;
            auto req = e.get_required_symbols();
            std::vector<std::string> r(req.begin(), req.end());
            std::sort(r.begin(), r.end());
            out["req"] = r;
            out["v"] = json::array();
            for (auto &env : j["envs"]) {
                bool all = true;
                for (auto &n : names)
                    if (env.contains(n)) e.set_value(n, std::stoll(env[n].get<std::string>()));
                    else all = false;
                if (all) out["v"].push_back(std::to_string(e.eval()));
            }
            if (j.contains("static")) {   // the names of the environment as constants
                hgdb::DebugExpression f(text);
                std::unordered_map<std::string, int64_t> vals;
                for (auto &[n, v] : j["envs"][0].items()) vals[n] = std::stoll(v.get<std::string>());
                f.set_static_values(vals);
                out["sreq"] = f.get_required_symbols().size();
                out["sv"] = std::to_string(f.eval());
            }
        }
        std::cout << out.dump() << std::endl;
    }
}
