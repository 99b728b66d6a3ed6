// Replays abstract behaviours (JSON lines) against a real hgdb::Debugger: real server thread, real sockets, a real
// (mock) simulator thread.  Usage: session PORT_BASE PORT_COUNT < input ; one process is forked per behaviour.
//   input line 1: {"designs":[...]}           later lines: {"id":..,"design":i,"steps":[...]}
//   output      : one JSON line per behaviour: {"id":..,"obs":[...],"end":"ok|crash:N|hang|error:..."}
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>

#include <condition_variable>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <thread>

#include "debug.hh"
#include "memdb.hh"
#include "sim.hh"
#include "mocksim.hh"
#include "forkrun.hh"
#include "ws.hh"

void slow_start(uint64_t seed);  // slow.cc

struct Sim {  // the simulator thread
    std::mutex m;
    std::condition_variable cv;
    std::deque<std::function<void()>> q;
    std::atomic<bool> busy{true};
    std::atomic<long> done{0};
    std::thread t;
    void start(std::function<void()> first) {
        q.push_back(std::move(first));
        t = std::thread([this]() {
            while (true) {
                std::function<void()> f;
                {
                    std::unique_lock l(m);
                    if (q.empty()) {
                        busy = false;
                        cv.wait(l, [this] { return !q.empty(); });
                    }
                    busy = true;
                    f = std::move(q.front());
                    q.pop_front();
                }
                f();
                done++;
            }
        });
    }
    void post(std::function<void()> f) {
        {
            std::lock_guard l(m);
            busy = true;
            q.push_back(std::move(f));
        }
        cv.notify_one();
    }
};

static void run_child(const json &design, const json &trace, uint16_t port, int out) {
    auto emit = [&](const json &j) {
        auto s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
        size_t off = 0;
        while (off < s.size()) {
            auto n = write(out, s.data() + off, s.size() - off);
            if (n <= 0) _exit(97);
            off += n;
        }
    };
    auto fin = [&](const std::string &how) {
        emit({{"end", how}});
        _exit(0);
    };
    if (design.contains("env"))
        for (auto &[k, v] : design["env"].items()) setenv(k.c_str(), v.get<std::string>().c_str(), 1);
    slow_start(trace.value("slow", 0));
    auto *sim = new MockSim(design["sim"]);
    sim->add_arg("sim");
    sim->add_arg("+DEBUG_PORT=" + std::to_string(port));
    bool load = design.contains("db") && !design["db"].is_null();
    if (load) sim->add_arg("+DEBUG_NO_DB");
    auto *dbg = hgdb::initialize_hgdb_runtime_vpi(std::unique_ptr<hgdb::AVPIProvider>(sim), false);
    if (load && !design.value("late", false)) dbg->initialize_db(std::make_unique<MemDB>(design["db"]));
    Sim th;
    th.start([&] { sim->fire(cbStartOfSimulation); });
    std::map<int, WsClient> cl;
    int nticks = 0;
    bool gone = false;  // so is the simulation
    auto status = [&](bool fast) -> json {
        json o;
        json msgs = json::object(), closed = json::array();
        for (auto &[k, c] : cl) {
            if (!c.inbox.empty()) {
                json a = json::array();
                for (auto &s : c.inbox) {
                    auto j = json::parse(s, nullptr, false);
                    if (j.is_discarded())
                        a.push_back(json{{"unparsable", s}});
                    else
                        a.push_back(j);
                }
                msgs[std::to_string(k)] = a;
                c.inbox.clear();
            }
            if (c.closed) closed.push_back(k);
        }
        o["msgs"] = msgs;
        o["closed"] = closed;
        if (fast) return o;
        if (gone) return o;
        o["sim"] = th.busy ? "blocked" : "idle";
        o["time"] = sim->time();
        o["cyc"] = sim->cycle();
        o["cbs"] = sim->live_clock_cbs();
        auto ops = sim->take_ops();
        if (!ops.empty()) o["ops"] = ops;
        return o;
    };
    auto pingpong = [&](const std::vector<int> &pinged) -> bool {
        for (int k : pinged) {
            auto it = cl.find(k);
            if (it == cl.end() || it->second.fd < 0 || it->second.closed) continue;
            it->second.pongs = 0;
            it->second.send_ping();
        }
        for (int k : pinged) {
            auto it = cl.find(k);
            if (it == cl.end() || it->second.fd < 0) continue;
            auto end = WsClient::now() + hang_ms;
            while (!it->second.pongs && !it->second.closed) {
                it->second.pump(50);
                if (WsClient::now() > end) return false;
            }
        }
        return true;
    };
    // after a request, its handler has run when the server answers a ping sent behind it; then everybody falls
    // asleep; then a second ping flushes what the simulator thread sent
    bool dead = false, over = false;  // the server is told to stop: nobody answers pings any more
    auto settle = [&](const std::vector<int> &pinged) -> bool {
        if (gone) {
            auto end = WsClient::now() + hang_ms;
            while (WsClient::now() < end) {
                bool all = !th.busy;
                for (auto &[k, c] : cl) {
                    if (!c.closed) c.pump(1);
                    all = all && c.closed;
                }
                if (all) break;
            }
            return !th.busy;
        }
        if (dead) {
            auto end = WsClient::now() + hang_ms;
            while (!over && !sim->finished() && WsClient::now() < end) usleep(500);
            if (!over) usleep(2000);
            over = true;
            if (!quiesce()) return false;
            for (auto &[k, c] : cl) c.pump(0);
            return true;
        }
        if (!pingpong(pinged)) return false;
        if (!quiesce()) return false;
        std::vector<int> all;
        for (auto &[k, c] : cl) all.push_back(k);
        if (!pingpong(all)) return false;
        for (auto &[k, c] : cl) c.pump(0);
        return true;
    };
    if (!settle({})) fin("hang");
    for (auto const &st : trace["steps"]) {
        auto op = st["op"].get<std::string>();
        std::vector<int> ping;
        json extra;
        auto tick = [&] {
            th.post([&] {
                sim->posedge();
                sim->negedge();
            });
        };
        auto rq = [&](const json &s) {
            int c = s.value("c", 0);
            if (!cl.count(c) || cl[c].fd < 0) return;
            cl[c].send_text(s.contains("text") ? s["text"].get<std::string>() : s["j"].dump());
            ping.push_back(c);
        };
        if (op == "connect") {
            int c = st.value("c", 0);
            cl[c] = WsClient();
            if (!cl[c].connect(port, hang_ms)) extra["connect"] = "failed";
            else ping.push_back(c);
        } else if (op == "close") {
            int c = st.value("c", 0);
            if (cl.count(c)) {
                if (st.value("how", "ws") == "ws") {
                    cl[c].send_close();
                    auto end = WsClient::now() + hang_ms;
                    while (!cl[c].closed && WsClient::now() < end) cl[c].pump(50);
                }
                cl[c].abort();
                cl.erase(c);
            }
        } else if (op == "tick") {
            if (th.busy)
                extra["skipped"] = true;
            else
                for (int i = 0; i < st.value("n", 1); i++) tick();
        } else if (op == "req") {
            rq(st);
            if (st.value("stop", false)) dead = true;
        } else if (op == "burst") {  // no settling in between: requests and clock edges race
            for (auto const &s : st["items"]) {
                if (s["op"] == "tick")
                    for (int i = 0; i < s.value("n", 1); i++) tick();
                else
                    rq(s);
                if (s.contains("us")) usleep(s["us"].get<int>());
            }
            std::sort(ping.begin(), ping.end());
            ping.erase(std::unique(ping.begin(), ping.end()), ping.end());
        } else if (op == "assert") {
            th.post([&, st] {
                sim->set_tf(st["mod"], st["file"], st["line"], st.value("col", 0));
                sim->call_tf("$hgdb_assert_fail");
            });
        } else if (op == "initdb") {  // (re)load the in-memory table, as a connection request does with a file
            dbg->initialize_db(std::make_unique<MemDB>(design["db"]));
        } else if (op == "endsim") {  // the simulation ends: the debugger and the simulator's interface are destroyed
            gone = true;
            th.post([&] { sim->fire(cbEndOfSimulation); });
        } else if (op == "peek") {
            for (auto const &n : st["names"]) extra["peek"][n.get<std::string>()] = sim->peek(n);
        } else if (op == "poke") {
            sim->poke(st["name"], st["value"]);
        }
        // the next request follows at once on the messages that are due now
        bool fast = st.contains("need");
        if (fast)
            for (auto &[k, n] : st["need"].items()) {
                auto it = cl.find(std::stoi(k));
                if (it == cl.end() || it->second.fd < 0) continue;
                auto end = WsClient::now() + hang_ms;
                while (!it->second.closed && it->second.inbox.size() < n.get<size_t>()) {
                    it->second.pump(50);
                    if (WsClient::now() > end) fin("hang");
                }
            }
        else if (!settle(ping)) fin("hang");
        auto o = status(fast);
        if (!extra.is_null())
            for (auto &[k, v] : extra.items()) o[k] = v;
        emit(o);
    }
    for (auto &[k, c] : cl) c.abort();
    fin("ok");
}

int main(int argc, char **argv) { return fork_runner(argc, argv, run_child); }
