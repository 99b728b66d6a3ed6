// Symbol tables: {"doc": json, "via": parse|file|tcp|ws, "asked": [[file,line,col]], "names": [], "assigned": [], "envs": [[a,b,addr]], "attrs": []}
// per line -> everything the table answers.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <iostream>
#include <nlohmann/json.hpp>
#include <thread>

#include "db.hh"
#include "eval.hh"
#include "proto.hh"
#include "server.hh"
using json = nlohmann::json;
using namespace hgdb;

std::optional<int64_t> symbol_value(const std::string &name) {
    if (name == "addr" || name.ends_with(".addr")) return 2;
    return std::nullopt;
}

// the other side of a remote symbol table
std::string serve(SymbolTableProvider &db, const std::string &text) {
    auto j = json::parse(text);
    SymbolRequest req(SymbolRequest::request_type::get_filenames);
    req.parse_payload(j.at("payload").dump());
    SymbolResponse resp(req.req_type());
    using T = SymbolRequest::request_type;
    if (req.status() != status_code::success) return "{}";
    switch (req.req_type()) {
        case T::get_breakpoint: resp.bp_result = db.get_breakpoint(req.breakpoint_id); break;
        case T::get_breakpoints:
            resp.bp_results = req.line_num ? db.get_breakpoints(req.filename, req.line_num, req.column_num) : db.get_breakpoints(req.filename);
            break;
        case T::get_instance_name: resp.str_result = db.get_instance_name(req.instance_id); break;
        case T::get_instance_id:
            resp.uint64_t_result = req.instance_name.empty() ? db.get_instance_id(req.breakpoint_id) : db.get_instance_id(req.instance_name);
            break;
        case T::get_context_variables: resp.context_vars_result = db.get_context_variables(req.breakpoint_id); break;
        case T::get_generator_variables: resp.gen_vars_result = db.get_generator_variable(req.instance_id); break;
        case T::get_instance_names: resp.str_results = db.get_instance_names(); break;
        case T::get_annotation_values: resp.str_results = db.get_annotation_values(req.name); break;
        case T::get_all_array_names: resp.str_results = db.get_all_array_names(); break;
        case T::get_filenames: resp.str_results = db.get_filenames(); break;
        case T::get_execution_bp_orders: resp.uint64_t_results = db.execution_bp_orders(); break;
        case T::get_assigned_breakpoints: resp.var_result = db.get_assigned_breakpoints(req.name, req.breakpoint_id); break;
    }
    return resp.str(false);
}

// a table with given answers
struct Canned : SymbolTableProvider {
    json calls;
    std::atomic<int> missing = 0;
    json find(const char *fn, const json &args) {
        for (auto &c : calls)
            if (c["fn"] == fn && c["args"] == args) return c["answer"];
        missing++;
        return json::array();
    }
    static BreakPoint bp(const json &j) {
        BreakPoint b;
        b.id = j["id"];
        b.instance_id = std::make_unique<uint32_t>(j["inst"].get<uint32_t>());
        b.filename = j["file"];
        b.line_num = j["line"];
        b.column_num = j["col"];
        b.condition = j["cond"];
        b.trigger = j["trigger"];
        return b;
    }
    static std::vector<BreakPoint> bps(const json &j) {
        std::vector<BreakPoint> r;
        for (auto &x : j) r.push_back(bp(x));
        return r;
    }
    static std::vector<std::string> strs(const json &j) { return j.get<std::vector<std::string>>(); }
    std::vector<BreakPoint> get_breakpoints(const std::string &f, uint32_t l) override { return bps(find("bps_line", {f, l})); }
    std::vector<BreakPoint> get_breakpoints(const std::string &f, uint32_t l, uint32_t c) override {
        return c ? bps(find("bps_col", {f, l, c})) : get_breakpoints(f, l);
    }
    std::vector<BreakPoint> get_breakpoints(const std::string &f) override { return bps(find("bps_file", json::array({f}))); }
    std::optional<BreakPoint> get_breakpoint(uint32_t id) override {
        auto j = find("bp", json::array({id}));
        if (j.empty()) return std::nullopt;
        return bp(j[0]);
    }
    std::optional<std::string> get_instance_name(uint32_t id) override {
        auto j = find("inst_name", json::array({id}));
        if (j.empty()) return std::nullopt;
        return j[0].get<std::string>();
    }
    std::optional<uint64_t> get_instance_id(const std::string &n) override {
        auto j = find("inst_id_name", json::array({n}));
        if (j.empty()) return std::nullopt;
        return j[0].get<uint64_t>();
    }
    std::optional<uint64_t> get_instance_id(uint64_t id) override {
        auto j = find("inst_id_bp", json::array({id}));
        if (j.empty()) return std::nullopt;
        return j[0].get<uint64_t>();
    }
    std::vector<std::string> get_filenames() override { return strs(find("files", json::array())); }
    std::vector<ContextVariableInfo> get_context_variables(uint32_t id) override {
        std::vector<ContextVariableInfo> r;
        for (auto &j : find("context", json::array({id})))
            r.emplace_back(ContextVariable{.name = j["name"], .breakpoint_id = std::make_unique<uint32_t>(id), .variable_id = std::make_unique<uint32_t>(j["id"].get<uint32_t>()),
                                           .type = j["type"], .depth = j["depth"]},
                           Variable{.id = j["id"], .value = j["value"], .is_rtl = j["rtl"]});
        return r;
    }
    std::vector<GeneratorVariableInfo> get_generator_variable(uint32_t id) override {
        std::vector<GeneratorVariableInfo> r;
        for (auto &j : find("generator", json::array({id})))
            r.emplace_back(GeneratorVariable{.name = j["name"], .instance_id = std::make_unique<uint32_t>(id), .variable_id = std::make_unique<uint32_t>(j["id"].get<uint32_t>()),
                                             .annotation = j["annotation"]},
                           Variable{.id = j["id"], .value = j["value"], .is_rtl = j["rtl"]});
        return r;
    }
    std::vector<std::string> get_instance_names() override { return strs(find("insts", json::array())); }
    std::vector<std::string> get_annotation_values(const std::string &n) override { return strs(find("annotation", json::array({n}))); }
    std::vector<std::string> get_all_array_names() override { return strs(find("arrays", json::array())); }
    std::vector<std::tuple<uint32_t, std::string, std::string>> get_assigned_breakpoints(const std::string &v, uint32_t id) override {
        std::vector<std::tuple<uint32_t, std::string, std::string>> r;
        for (auto &j : find("sites", {v, id})) r.emplace_back(j["id"], j["value"], j["cond"]);
        return r;
    }
    std::vector<uint32_t> execution_bp_orders() override { return find("order", json::array()).get<std::vector<uint32_t>>(); }
    bool bad() const override { return false; }
};

json of(const BreakPoint &b) {
    return {{"id", b.id}, {"inst", b.instance_id ? json(*b.instance_id) : json()}, {"file", b.filename}, {"line", b.line_num}, {"col", b.column_num},
            {"cond", b.condition}, {"trigger", b.trigger}};
}
template <typename T>
json opt(const std::optional<T> &o) {
    json r = json::array();
    if (o) r.push_back(*o);
    return r;
}
json ask(SymbolTableProvider &db, const std::string &fn, const json &a) {
    json r = json::array();
    if (fn == "bps_file") { for (auto &b : db.get_breakpoints(a[0].get<std::string>())) r.push_back(of(b)); }
    else if (fn == "bps_line") { for (auto &b : db.get_breakpoints(a[0].get<std::string>(), a[1].get<uint32_t>())) r.push_back(of(b)); }
    else if (fn == "bps_col") { for (auto &b : db.get_breakpoints(a[0].get<std::string>(), a[1].get<uint32_t>(), a[2].get<uint32_t>())) r.push_back(of(b)); }
    else if (fn == "bp") { if (auto b = db.get_breakpoint(a[0].get<uint32_t>())) r.push_back(of(*b)); }
    else if (fn == "inst_name") r = opt(db.get_instance_name(a[0].get<uint32_t>()));
    else if (fn == "inst_id_name") r = opt(db.get_instance_id(a[0].get<std::string>()));
    else if (fn == "inst_id_bp") r = opt(db.get_instance_id(a[0].get<uint64_t>()));
    else if (fn == "files") r = db.get_filenames();
    else if (fn == "insts") r = db.get_instance_names();
    else if (fn == "arrays") r = db.get_all_array_names();
    else if (fn == "annotation") r = db.get_annotation_values(a[0].get<std::string>());
    else if (fn == "order") r = db.execution_bp_orders();
    else if (fn == "context") {
        for (auto &[c, v] : db.get_context_variables(a[0].get<uint32_t>()))
            r.push_back({{"name", c.name}, {"type", c.type}, {"depth", c.depth}, {"id", v.id}, {"value", v.value}, {"rtl", v.is_rtl}});
    } else if (fn == "generator") {
        for (auto &[c, v] : db.get_generator_variable(a[0].get<uint32_t>()))
            r.push_back({{"name", c.name}, {"annotation", c.annotation}, {"id", v.id}, {"value", v.value}, {"rtl", v.is_rtl}});
    } else if (fn == "sites") {
        for (auto &[id, v, c] : db.get_assigned_breakpoints(a[0].get<std::string>(), a[1].get<uint32_t>())) r.push_back({{"id", id}, {"value", v}, {"cond", c}});
    }
    return r;
}

struct TcpRemote {
    int fd;
    uint16_t port;
    std::thread t;
    TcpRemote(SymbolTableProvider &db) {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        bind(fd, reinterpret_cast<sockaddr *>(&a), sizeof a);
        listen(fd, 1);
        socklen_t n = sizeof a;
        getsockname(fd, reinterpret_cast<sockaddr *>(&a), &n);
        port = ntohs(a.sin_port);
        t = std::thread([this, &db] {
            int c = accept(fd, nullptr, nullptr);
            if (c < 0) return;
            int on = 1;
            setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
            std::string buf;
            char b[4096];
            ssize_t n;
            while ((n = read(c, b, sizeof b)) > 0) {
                buf.append(b, n);
                if (!json::accept(buf)) continue;
                auto out = serve(db, buf);
                buf.clear();
                // in pieces, as networks do
                size_t half = out.size() / 2;
                if (write(c, out.data(), half) < 0) break;
                if (write(c, out.data() + half, out.size() - half) < 0) break;
            }
            close(c);
        });
    }
    ~TcpRemote() {
        shutdown(fd, SHUT_RDWR);
        close(fd);
        t.join();
    }
};

json var(const std::string &name, const Variable &v, uint32_t type, uint32_t depth) {
    return {{"name", name}, {"value", v.value}, {"rtl", v.is_rtl}, {"d", type == 1 ? depth : 0}};
}

json truth(const std::string &cond, const json &envs) {
    json r = json::array();
    DebugExpression e(cond);
    for (auto &env : envs) {
        if (cond.empty()) { r.push_back(1); continue; }
        if (!e.correct()) return "incorrect: " + cond;
        const char *n[] = {"a", "b", "addr"};
        for (int i = 0; i < 3; i++)
            if (e.symbols().count(n[i])) e.set_value(n[i], env[i]);
        r.push_back(e.eval() ? 1 : 0);
    }
    return r;
}

json query(SymbolTableProvider &db, const json &in) {
    json out;
    auto &envs = in["envs"];
    std::map<uint32_t, std::pair<std::string, int>> where;   // breakpoint -> instance, position
    auto names = db.get_instance_names();
    json odd = json::array();
    std::map<std::string, std::vector<uint32_t>> of;
    std::set<uint32_t> seen;
    for (auto id : db.execution_bp_orders()) {
        if (!seen.insert(id).second) odd.push_back("breakpoint twice in the order");
        auto i = db.get_instance_id(static_cast<uint64_t>(id));
        auto n = db.get_instance_name_from_bp(id);
        if (!i || !n) { odd.push_back("breakpoint without an instance"); continue; }
        if (db.get_instance_name(*i) != n) odd.push_back("instance of a breakpoint and its name differ");
        if (std::find(names.begin(), names.end(), *n) == names.end()) odd.push_back("unlisted instance " + *n);
        of[*n].push_back(id);
        where[id] = {*n, of[*n].size()};
    }
    out["insts"] = json::array();
    std::set<uint64_t> ids;
    uint32_t unused = 100000;
    for (auto &n : names) {
        json x{{"path", n}};
        auto id = db.get_instance_id(n);
        if (!id) { odd.push_back("no id for " + n); continue; }
        if (!ids.insert(*id).second) odd.push_back("id twice");
        if (db.get_instance_name(*id) != n) odd.push_back("name of the instance of " + n);
        x["gen"] = json::array();
        for (auto &[g, v] : db.get_generator_variable(*id)) x["gen"].push_back(var(g.name, v, 0, 0));
        x["res"] = json::array();
        for (auto &r : in["names"]) x["res"].push_back(db.resolve_scoped_name_instance(r, *id).value_or(""));
        x["bps"] = json::array();
        for (auto b : of[n]) {
            auto bp = db.get_breakpoint(b);
            if (!bp) { odd.push_back("no breakpoint with an id of the order"); continue; }
            if (bp->id != b || !bp->instance_id || *bp->instance_id != *id) odd.push_back("breakpoint of another id or instance");
            json y{{"file", bp->filename}, {"line", bp->line_num}, {"col", bp->column_num}, {"cond", truth(bp->condition, envs)}, {"free", bp->condition.empty()}};
            if (!bp->trigger.empty()) odd.push_back("trigger");
            y["vis"] = json::array();
            for (auto &[c, v] : db.get_context_variables(b)) y["vis"].push_back(var(c.name, v, c.type, c.depth));
            y["delayed"] = json::array();
            for (auto &[c, v] : db.get_context_delayed_variables(b)) y["delayed"].push_back(var(c.name, v, c.type, c.depth));
            y["const"] = json::array();
            for (auto &[k, v] : db.get_context_static_values(b)) y["const"].push_back(json::array({k, v}));
            y["res"] = json::array();
            for (auto &r : in["names"]) y["res"].push_back(db.resolve_scoped_name_breakpoint(r, b).value_or(""));
            x["bps"].push_back(y);
        }
        x["sites"] = json::array();
        if (!of[n].empty())
            for (auto &v : in["assigned"]) {
                json first;
                for (auto b : {of[n].front(), of[n].back()}) {
                    json s = json::array();
                    for (auto &[bid, value, cond] : db.get_assigned_breakpoints(v, b)) {
                        if (!where.count(bid) || where[bid].first != n) odd.push_back("assignment in another instance");
                        else s.push_back(json::array({where[bid].second, value, truth(cond, envs)}));
                    }
                    if (first.is_null()) first = s;
                    else if (first != s) odd.push_back("assignments depend on the breakpoint");
                }
                x["sites"].push_back(first);
            }
        out["insts"].push_back(x);
    }
    out["found"] = json::array();
    for (auto &q : in["asked"]) {
        json r = json::array();
        std::vector<BreakPoint> bps;
        uint32_t l = q[1], c = q[2];
        if (l == 0) bps = db.get_breakpoints(q[0].get<std::string>());
        else if (c == 0) bps = db.get_breakpoints(q[0].get<std::string>(), l);
        else bps = db.get_breakpoints(q[0].get<std::string>(), l, c);
        for (auto &b : bps) {
            auto g = db.get_breakpoint(b.id);
            if (!g || g->line_num != b.line_num || g->column_num != b.column_num || g->filename != b.filename || g->condition != b.condition ||
                *g->instance_id != *b.instance_id)
                odd.push_back("a breakpoint found by place differs from the one found by id");
            if (where.count(b.id)) r.push_back(json::array({where[b.id].first, where[b.id].second}));
            else odd.push_back("a breakpoint found by place is not in the order");
        }
        out["found"].push_back(r);
    }
    if (db.get_breakpoint(unused) || db.get_instance_name(unused) || db.get_instance_id(std::string("top.nosuch")) || db.get_instance_id(std::string("nosuch")) ||
        db.get_instance_id(std::string("")) || db.get_instance_id(uint64_t(unused)) || !db.get_context_variables(unused).empty() ||
        !db.get_generator_variable(unused).empty() || !db.get_assigned_breakpoints("x", unused).empty() || !db.get_annotation_values("nosuch").empty() ||
        db.resolve_scoped_name_breakpoint("x", unused) || db.resolve_scoped_name_instance("x", unused) || !db.get_context_static_values(unused).empty() ||
        !db.get_assigned_breakpoints("", 0).empty() || db.get_instance_name_from_bp(unused) || !db.get_context_delayed_variables(unused).empty())
        odd.push_back("something found that is not there");
    auto files = db.get_filenames();
    out["files"] = std::set<std::string>(files.begin(), files.end());
    out["attrs"] = json::array();
    for (auto &n : in["attrs"]) out["attrs"].push_back(db.get_annotation_values(n));
    out["odd"] = odd;
    return out;
}

int main() {
    std::string line;
    std::string path = "/tmp/symtab_" + std::to_string(getpid()) + ".json";
    if (auto *t = getenv("SYMTAB_TMP")) path = std::string(t) + "/symtab_" + std::to_string(getpid()) + ".json";
    uint16_t ws_port = getenv("WS_PORT") ? std::stoi(getenv("WS_PORT")) : 0;
    std::unique_ptr<DebugServer> server;
    std::thread server_thread;
    SymbolTableProvider *served = nullptr;
    auto start_server = [&] {
        if (server) return;
        server = std::make_unique<DebugServer>();
        auto *s = server.get();
        server->set_on_message([&served, s](const std::string &msg, uint64_t id) { s->send(serve(*served, msg), id); });
        server_thread = std::thread([s, ws_port] { s->run(ws_port); });
        usleep(200000);
    };
    while (std::getline(std::cin, line)) {
        auto in = json::parse(line);
        std::string via = in["via"];
        auto text = in.contains("text") ? in["text"].get<std::string>() : in["doc"].dump();
        json out;
        if (in.contains("calls")) {
            // one table per conversation; the first question of a kind with its arguments decides
            Canned db;
            db.calls = in["calls"];
            std::unique_ptr<TcpRemote> t;
            std::unique_ptr<SymbolTableProvider> remote;
            if (via == "tcp") {
                t = std::make_unique<TcpRemote>(db);
                remote = create_symbol_table("tcp://127.0.0.1:" + std::to_string(t->port));
            } else {
                served = &db;
                start_server();
                remote = create_symbol_table("ws://127.0.0.1:" + std::to_string(ws_port));
            }
            out["got"] = json::array();
            if (remote)
                for (auto &c : in["calls"]) out["got"].push_back(ask(*remote, c["fn"], c["args"]));
            remote.reset();
            out["missing"] = db.missing.load();
        } else if (via == "file") {
            { std::ofstream f(path); f << text; }
            auto db = create_symbol_table(path);
            unlink(path.c_str());
            if (!db || db->bad()) out["bad"] = true;
            else {
                db->set_get_symbol_value(symbol_value);
                out = query(*db, in);
            }
        } else {
            JSONSymbolTableProvider db;
            db.set_get_symbol_value(symbol_value);
            bool ok = db.parse(text);
            if (ok == db.bad()) out["odd"] = {"parse and bad disagree"};
            if (!ok) {
                out["bad"] = true;
                // a table that cannot be used answers nothing
                if (!db.get_breakpoints("a.py").empty() || !db.get_instance_names().empty() || db.get_breakpoint(0) || db.get_instance_name(0)) out["bad"] = "answers";
            } else if (via == "parse") out = query(db, in);
            else if (via == "tcp") {
                TcpRemote r(db);
                auto remote = create_symbol_table("tcp://127.0.0.1:" + std::to_string(r.port));
                if (!remote) out["odd"] = {"no connection"};
                else out = query(*remote, in);
            } else if (via == "ws") {
                served = &db;
                start_server();
                auto remote = create_symbol_table("ws://127.0.0.1:" + std::to_string(ws_port));
                if (!remote) out["odd"] = {"no connection"};
                else out = query(*remote, in);
            }
        }
        std::cout << out.dump(-1, ' ', false, json::error_handler_t::replace) << std::endl;
    }
    if (server) {
        server->stop();
        server_thread.join();
    }
}
