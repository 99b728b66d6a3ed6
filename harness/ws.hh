// Minimal blocking WebSocket client (RFC 6455, text frames, ping/pong, close).
#pragma once
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <chrono>
#include <string>
#include <vector>

class WsClient {
public:
    int fd = -1;
    bool closed = false;       // the server closed the connection
    int pongs = 0;
    std::vector<std::string> inbox;

    bool connect(uint16_t port, int timeout_ms) {
        auto end = now() + timeout_ms;
        while (now() < end) {
            fd = ::socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (::connect(fd, (sockaddr *)&a, sizeof a) == 0) {
                int one = 1;
                setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
                std::string h = "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                                "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n";
                put(h);
                while (now() < end && !closed) {
                    auto p = buf_.find("\r\n\r\n");
                    if (p != std::string::npos) {
                        bool ok = buf_.find(" 101 ") != std::string::npos;
                        buf_.erase(0, p + 4);
                        parse();
                        return ok;
                    }
                    fill(100);
                }
                return false;
            }
            ::close(fd);
            fd = -1;
            usleep(500);
        }
        return false;
    }
    void send_text(const std::string &s) { frame(1, s); }
    void send_ping() { frame(9, "p"); }
    void send_close() { frame(8, std::string("\x03\xe8", 2)); }
    void abort() {
        if (fd < 0) return;
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        ::close(fd);
        fd = -1;
    }
    // read whatever is there, waiting at most timeout_ms for the first byte
    void pump(int timeout_ms) {
        if (fd < 0 || closed) return;
        if (fill(timeout_ms)) {
            while (fill(0)) {
            }
        }
        parse();
    }
    static int64_t now() {
        using namespace std::chrono;
        return duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count();
    }

private:
    std::string buf_;
    void put(const std::string &s) {
        size_t off = 0;
        while (off < s.size()) {
            auto n = ::send(fd, s.data() + off, s.size() - off, MSG_NOSIGNAL);
            if (n <= 0) return;
            off += n;
        }
    }
    bool fill(int timeout_ms) {
        if (fd < 0 || closed) return false;
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, timeout_ms) <= 0) return false;
        char tmp[65536];
        int one = 1;  // acknowledge at once: the server's socket uses Nagle's algorithm
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        auto n = ::recv(fd, tmp, sizeof tmp, MSG_DONTWAIT);
        if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) {
            closed = true;
            return false;
        }
        if (n < 0) return false;
        buf_.append(tmp, n);
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        return true;
    }
    void frame(int op, const std::string &s) {
        if (fd < 0) return;
        std::string f;
        f.push_back(char(0x80 | op));
        if (s.size() < 126)
            f.push_back(char(0x80 | s.size()));
        else if (s.size() < 65536) {
            f.push_back(char(0x80 | 126));
            f.push_back(char(s.size() >> 8));
            f.push_back(char(s.size() & 255));
        } else {
            f.push_back(char(0x80 | 127));
            for (int i = 7; i >= 0; i--) f.push_back(char((uint64_t(s.size()) >> (8 * i)) & 255));
        }
        f.append(4, '\0');  // zero mask
        f.append(s);
        put(f);
    }
    void parse() {
        while (true) {
            if (buf_.size() < 2) return;
            int op = buf_[0] & 15;
            uint64_t len = buf_[1] & 127;
            size_t off = 2;
            if (len == 126) {
                if (buf_.size() < 4) return;
                len = (uint8_t(buf_[2]) << 8) | uint8_t(buf_[3]);
                off = 4;
            } else if (len == 127) {
                if (buf_.size() < 10) return;
                len = 0;
                for (int i = 0; i < 8; i++) len = (len << 8) | uint8_t(buf_[2 + i]);
                off = 10;
            }
            if (buf_.size() < off + len) return;
            std::string pay = buf_.substr(off, len);
            buf_.erase(0, off + len);
            if (op == 1 || op == 2)
                inbox.push_back(pay);
            else if (op == 10)
                pongs++;
            else if (op == 8)
                closed = true;
            else if (op == 9)
                frame(10, pay);
        }
    }
};
