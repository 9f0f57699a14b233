// The TCP client stream against a scripted server on the virtual network.
#include "wire.hpp"
#include "rt/vs.h"
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <thread>
using namespace wire;
using HawkTracer::ClientUtils::TCPClientStream;
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            int rounds = 1 + (vs::rnd(3) == 0 ? 1 + vs::rnd(2) : 0);
            bool wait = vs::rnd(2), late = wait && vs::rnd(4) == 0, absent = !wait && vs::rnd(5) == 0;
            // every connection: does the server close it (else only a stop ends it)
            std::vector<int> closes; for (int i = 0; i < rounds; i++) closes.push_back(vs::rnd(3) != 0);
            std::vector<int> held;
            // a polite server goes on only when what it sent was read: data at hand must reach a waiting reader
            bool polite = vs::rnd(3) == 0; static long sent[9], got[9]; static int over, conn; over = conn = 0; for (int i = 0; i < 9; i++) sent[i] = got[i] = 0;
            vs::g_eintr = vs::rnd(4) == 0; int srv = -1;
            auto listen_now = [&] {
                srv = socket(AF_INET, SOCK_STREAM, 0);
                struct sockaddr_in ad; memset(&ad, 0, sizeof ad); ad.sin_family = AF_INET; ad.sin_port = htons(9999); ad.sin_addr.s_addr = INADDR_ANY;
                bind(srv, (struct sockaddr*)&ad, sizeof ad); vs::emit(J("Listen")); listen(srv, 5);
            };
            if (!late && !absent) listen_now();
            std::thread server;
            if (!absent) server = std::thread([&] {
                if (late) { for (int i = vs::rnd(3); i > 0; i--) usleep(7000); listen_now(); }
                for (int k = 1; k <= rounds; k++) {
                    int fd; do fd = accept(srv, nullptr, nullptr); while (fd < 0 && errno == EINTR);
                    int chunks = vs::rnd(4); bool ok = true;
                    for (int i = 0; i < chunks && ok; i++) {
                        std::string b; { vs::Quiet q; int n = vs::rnd(8) == 0 ? 1000 + vs::rnd(80) : 1 + vs::rnd(9); for (int j = 0; j < n; j++) b += (char)(vs::rnd(4) ? vs::rnd(256) : 255); vs::emit(J("Send").i("k", k).raw("b", bytes(b))); }
                        for (size_t o = 0; o < b.size();) { ssize_t r = send(fd, b.data() + o, b.size() - o, MSG_NOSIGNAL); if (r < 0 && errno == EINTR) continue; if (r <= 0) { ok = false; break; } o += r; sent[k] += r; }
                        if (polite && ok) vs::block([&] { return got[k] >= sent[k] || over >= k; }, "reply");
                    }
                    if (closes[k - 1]) { vs::emit(J("Close").i("k", k)); close(fd); } else held.push_back(fd);
                }
            });
            {
                TCPClientStream s("127.0.0.1", 9999, wait);
                auto start = [&] { conn++; vs::emit(J("Start")); bool ok = s.start(); vs::emit(J("Started").b("ok", ok)); return ok; };
                auto stop = [&] { vs::emit(J("Stop")); s.stop(); vs::emit(J("Stopped")); };
                auto rd = [&]() -> bool {
                    if (polite || vs::rnd(2)) {
                        int v = s.read_byte(); vs::Quiet q;
                        if (v >= 0 && v < 256) { std::string b(1, (char)v); got[conn]++; vs::emit(J("Got").i("n", 1).raw("b", bytes(b))); return true; }
                        vs::emit(J("NoMore").i("n", v == -1 ? 1 : 9999999)); return false;
                    }
                    size_t n = 1 + (vs::rnd(6) == 0 ? vs::rnd(1500) : vs::rnd(6)); char* p; { vs::Quiet q; p = new char[n]; }
                    bool ok = s.read_data(p, n); vs::Quiet q;
                    if (ok) vs::emit(J("Got").i("n", n).raw("b", bytes(p, n))); else vs::emit(J("NoMore").i("n", n));
                    delete[] p; return ok;
                };
                if (vs::rnd(8) == 0) { stop(); if (vs::rnd(2)) rd(); }
                for (int r = 1; r <= rounds; r++) {
                    if (!start()) { over = conn; stop(); continue; }
                    bool end = closes[r - 1];
                    int how = vs::rnd(4);
                    if (how == 0 || !end) {      // stop races with the reading thread
                        std::thread t([&] { while (rd()) {} });
                        for (int i = vs::rnd(5); i > 0; i--) vs::point();
                        over = conn; stop(); t.join(); if (vs::rnd(2)) rd();
                    } else if (how == 1) { for (int i = vs::rnd(5); i > 0; i--) if (!rd()) break; over = conn; if (vs::rnd(2)) stop(); }   // leave data unread
                    else { while (rd()) {} over = conn; rd(); if (vs::rnd(2)) stop(); if (vs::rnd(3) == 0) stop(); }
                }
                vs::emit(J("Stop"));
            }
            vs::emit(J("Stopped"));
            if (!absent) { server.join(); close(srv); for (int f : held) close(f); }
            vs::Quiet q; vs::emit(J("End").i("socks", vs::open_sockets()));
        });
    }
    fclose(out);
}
