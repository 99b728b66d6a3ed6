// Runs every behaviour of the input in a process of its own and prints one result each.
#pragma once
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <functional>
#include <iostream>
#include <map>
#include <string>

#include <nlohmann/json.hpp>

#include "ws.hh"

using json = nlohmann::json;

static int hang_ms = 6000;

struct Task {
    char st;
    long long cs;
};
// state and context switch count of every thread but the caller
static std::map<int, Task> tasks() {
    std::map<int, Task> r;
    int self = syscall(SYS_gettid);
    DIR *d = opendir("/proc/self/task");
    while (auto *e = readdir(d)) {
        int tid = atoi(e->d_name);
        if (!tid || tid == self) continue;
        char p[64], b[4096];
        snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
        int fd = open(p, O_RDONLY);
        if (fd < 0) continue;
        int n = read(fd, b, sizeof b - 1);
        close(fd);
        if (n <= 0) continue;
        b[n] = 0;
        Task t{'?', 0};
        if (auto *s = strstr(b, "\nState:")) {
            s += 7;
            while (*s == ' ' || *s == '\t') s++;
            t.st = *s;
        }
        if (auto *s = strstr(b, "\nvoluntary_ctxt_switches:")) t.cs += atoll(s + 25);
        if (auto *s = strstr(b, "\nnonvoluntary_ctxt_switches:")) t.cs += atoll(s + 28);
        r[tid] = t;
    }
    closedir(d);
    return r;
}
// all other threads are asleep and nothing moved between two looks
static bool quiesce() {
    auto end = WsClient::now() + hang_ms;
    int spins = 0;
    while (WsClient::now() < end) {
        auto a = tasks();
        bool ok = true;
        for (auto &[id, t] : a) ok = ok && t.st == 'S';
        if (ok) {
            sched_yield();
            auto b = tasks();
            bool same = a.size() == b.size();
            if (same)
                for (auto &[id, t] : a) {
                    auto it = b.find(id);
                    same = same && it != b.end() && it->second.st == 'S' && it->second.cs == t.cs;
                }
            if (same) return true;
        }
        if (++spins > 20) usleep(200);
    }
    return false;
}

static bool port_free(uint16_t p) {
    int fd = socket(AF_INET6, SOCK_STREAM, 0);
    int fam = 6;
    if (fd < 0) {
        fd = socket(AF_INET, SOCK_STREAM, 0);
        fam = 4;
    }
    int r;
    if (fam == 6) {
        sockaddr_in6 a{};
        a.sin6_family = AF_INET6;
        a.sin6_port = htons(p);
        r = bind(fd, (sockaddr *)&a, sizeof a);
    } else {
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(p);
        r = bind(fd, (sockaddr *)&a, sizeof a);
    }
    if (r == 0) r = listen(fd, 1);
    close(fd);
    return r == 0;
}

template <class Child>
int fork_runner(int argc, char **argv, Child run_child) {
    int base = atoi(argv[1]), count = atoi(argv[2]), next = 0;
    if (getenv("HANG_MS")) hang_ms = atoi(getenv("HANG_MS"));
    std::ios::sync_with_stdio(false);
    std::string line;
    std::getline(std::cin, line);
    json designs = json::parse(line)["designs"];
    int hangs = 0;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        json tr = json::parse(line);
        if (hangs > 5) {  // that's enough
            std::cout << json{{"id", tr["id"]}, {"obs", json::array()}, {"end", "skipped"}}.dump() << "\n" << std::flush;
            continue;
        }
        int tries = 0;
        uint16_t port;
        do {
            port = base + next++ % count;
        } while (!port_free(port) && ++tries < 2 * count);
        int p[2], e[2];
        if (pipe(p) || pipe(e)) return 3;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(p[0]);
            close(e[0]);
            int dn = open("/dev/null", O_RDWR);
            dup2(dn, 0);
            dup2(dn, 1);
            dup2(e[1], 2);
            run_child(designs[tr["design"].get<int>()], tr, port, p[1]);
            _exit(98);
        }
        close(p[1]);
        close(e[1]);
        std::string out, err;
        bool od = false, ed = false;
        while (!od || !ed) {
            pollfd f[2] = {{od ? -1 : p[0], POLLIN, 0}, {ed ? -1 : e[0], POLLIN, 0}};
            poll(f, 2, -1);
            char b[65536];
            if (!od && f[0].revents) {
                auto n = read(p[0], b, sizeof b);
                if (n <= 0) od = true;
                else out.append(b, n);
            }
            if (!ed && f[1].revents) {
                auto n = read(e[0], b, sizeof b);
                if (n <= 0) ed = true;
                else if (err.size() < 20000) err.append(b, n);
            }
        }
        close(p[0]);
        close(e[0]);
        int ws;
        waitpid(pid, &ws, 0);
        json res;
        res["id"] = tr["id"];
        res["obs"] = json::array();
        std::string end;
        size_t a = 0;
        while (a < out.size()) {
            auto n = out.find('\n', a);
            if (n == std::string::npos) break;
            auto j = json::parse(out.substr(a, n - a), nullptr, false);
            if (j.contains("end"))
                end = j["end"];
            else
                res["obs"].push_back(j);
            a = n + 1;
        }
        if (end.empty()) {
            if (WIFSIGNALED(ws))
                end = "crash:" + std::to_string(WTERMSIG(ws));
            else
                end = "exit:" + std::to_string(WEXITSTATUS(ws));
            res["stderr"] = err.substr(err.size() > 600 ? err.size() - 600 : 0);
        }
        res["end"] = end;
        hangs += end == "hang";
        std::cout << res.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
    }
    return 0;
}
