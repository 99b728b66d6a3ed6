// Replays behaviours of spec/Server.tla against a real hgdb::DebugServer.  Usage and output: forkrun.hh (designs are ignored).
#include <atomic>
#include <mutex>
#include <thread>

#include "server.hh"
#include "forkrun.hh"

void slow_start(uint64_t seed);  // slow.cc

static void run_child(const json &, const json &trace, uint16_t port, int out) {
    auto emit = [&](const json &j) {
        auto s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
        size_t off = 0;
        while (off < s.size()) {
            auto n = write(out, s.data() + off, s.size() - off);
            if (n <= 0) _exit(97);
            off += n;
        }
    };
    auto fin = [&](const char *how) {
        emit({{"end", how}});
        _exit(0);
    };
    auto *server = new hgdb::DebugServer();
    std::atomic<int> left{0};
    std::mutex m;
    std::map<std::string, uint64_t> hello;  // text -> the id of the connection it came from
    server->set_on_call_client_disconnect([&]() { left++; });
    server->set_on_message([&](const std::string &s, uint64_t id) {
        {
            std::lock_guard g(m);
            hello[s] = id;
        }
        if (s[0] == 'q') server->send("a" + s, id);
    });
    std::thread run([&]() { server->run(port); });
    if (trace.contains("slow")) slow_start(trace["slow"]);
    std::map<int, WsClient> cl;
    std::map<int, uint64_t> ids, old;
    std::vector<uint64_t> seen;
    int hellos = 0;
    auto join = [&](int c) -> std::string {
        WsClient w;
        if (!w.connect(port, 3000)) return "failed";
        auto name = "h" + std::to_string(hellos++);
        w.send_text(name);
        w.send_ping();
        auto end = WsClient::now() + hang_ms;
        while (!w.pongs) {
            w.pump(50);
            if (w.closed || WsClient::now() > end) return "failed";
        }
        std::lock_guard g(m);
        if (!hello.count(name)) return "lost";
        auto id = hello[name];
        for (auto x : seen)
            if (x == id) return "id used again";
        seen.push_back(id);
        ids[c] = id;
        cl.erase(c);
        cl.emplace(c, std::move(w));
        return "ok";
    };
    auto leave = [&](int c, const std::string &how) {
        old[c] = ids[c];
        ids.erase(c);
        auto &w = cl[c];
        if (how == "rst")
            w.abort();
        else {
            w.send_close();
            auto end = WsClient::now() + hang_ms;
            while (!w.closed && WsClient::now() < end) w.pump(20);
            w.abort();
        }
        w.closed = true;
    };
    auto call = [&](const json &o) {
        auto k = o["k"].get<std::string>(), msg = o.value("m", "");
        int c = o.value("c", 0);
        auto id = [&]() { return ids.count(c) ? ids[c] : old.count(c) ? old[c] : uint64_t(1000000); };
        if (k == "all") server->send(msg);
        else if (k == "topic") server->send(msg, o["t"].get<std::string>());
        else if (k == "one") server->send(msg, id());
        else if (k == "sub") server->add_to_topic(o["t"], id());
        else if (k == "unsub") server->remove_from_topic(o["t"], id());
        else _exit(96);
    };
    for (auto const &st : trace["steps"]) {
        auto k = st["k"].get<std::string>();
        json o = json::object();
        if (k == "connect") {
            o["connect"] = join(st["c"]);
        } else if (k == "close") {
            leave(st["c"], st["how"]);
        } else if (k == "text") {
            cl[st["c"]].send_text(st["m"]);
        } else if (k == "burst") {
            auto threads = st["threads"];
            std::vector<std::thread> ts;
            std::atomic<int> go{int(threads.size()) + 1};
            auto at = ids;
            for (auto const &seq : threads)
                ts.emplace_back([&, seq]() {
                    go--;
                    while (go > 0) {
                    }
                    for (auto const &s : seq) {
                        auto kk = s["k"].get<std::string>(), msg = s["m"].get<std::string>();
                        if (kk == "all") server->send(msg);
                        else if (kk == "topic") server->send(msg, s["t"].get<std::string>());
                        else server->send(msg, at.count(s["c"].get<int>()) ? at[s["c"].get<int>()] : uint64_t(1000000));
                    }
                });
            go--;
            while (go > 0) {
            }
            if (st.value("leave", 0)) leave(st["leave"], "rst");
            if (st.value("join", 0)) o["connect"] = join(st["join"]);
            for (auto &t : ts) t.join();
        } else if (k == "stop") {
            server->stop();
            run.join();
            server->send("late");
            delete server;
            auto end = WsClient::now() + hang_ms;
            for (auto &[c, w] : cl)
                while (w.fd >= 0 && !w.closed && WsClient::now() < end) w.pump(20);
            for (auto &[c, w] : cl)
                if (w.fd >= 0 && !w.closed) o["open"] = c;
            if (o.contains("open")) {
                o["msgs"] = json::object();
                emit(o);
                fin("hang");
            }
        } else
            call(st);
        if (k != "stop") {
            // everything that was sent has arrived when a ping comes back
            std::map<int, int> want;
            for (auto &[c, w] : cl)
                if (!w.closed) want[c] = w.pongs + 1, w.send_ping();
            for (auto &[c, w] : cl) {
                auto end = WsClient::now() + hang_ms;
                while (!w.closed && w.pongs < want[c]) {
                    w.pump(20);
                    if (WsClient::now() > end) fin("hang");
                }
            }
            if (!quiesce()) fin("hang");
            for (auto &[c, w] : cl)
                if (!w.closed) w.pump(0);
        }
        json msgs = json::object(), gone = json::array();
        for (auto &[c, w] : cl) {
            if (!w.inbox.empty()) msgs[std::to_string(c)] = w.inbox;
            w.inbox.clear();
            if (w.fd >= 0 && w.closed) gone.push_back(c);
        }
        o["msgs"] = msgs;
        o["gone"] = gone;
        o["left"] = left.load();
        emit(o);
        if (k == "stop") break;
    }
    fin("ok");
}

int main(int argc, char **argv) { return fork_runner(argc, argv, run_child); }
