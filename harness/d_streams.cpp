// File streams (any mixture of reads) and the factory that makes a stream from
// a description; connections are recorded, not made.
#include "seq.hpp"
#include "wire.hpp"
#include <hawktracer/client_utils/stream_factory.hpp>
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <arpa/inet.h>
#include <fstream>
#include <sys/socket.h>
#include <sys/stat.h>
using namespace seq;
using namespace wire;
static struct sockaddr_in g_addr; static int g_connects; static bool g_big, g_huge; static size_t g_pos;   // a big file is read byte by byte around its page boundaries
extern "C" int connect(int, const struct sockaddr* a, socklen_t n) { memcpy(&g_addr, a, std::min((size_t)n, sizeof g_addr)); g_connects++; return 0; }
static bool rd(P::Stream& s) {
    if (chance(g_huge ? 5 : g_big ? g_pos % 4096 >= 4080 ? 95 : 2 : 50)) {
        g_pos++;
        int v = s.read_byte(); std::string b(1, (char)v);
        if (v >= 0 && v < 256) { emit(J("Got").i("n", 1).raw("b", bytes(b))); return true; }
        emit(J("NoMore").i("n", v == -1 ? 1 : 0)); return false;
    }
    size_t n = 1 + (chance(20) ? rnd(1500) : rnd(9)); if (g_big) n = chance(90) && g_pos % 4096 < 4080 ? 4088 - g_pos % 4096 : n;
    if (g_huge) n = (chance(50) ? 65536 : 30000) + rnd(40000);
    std::unique_ptr<char[]> p(new char[n]);
    bool ok = s.read_data(p.get(), n);
    g_pos += n;
    if (ok) emit(J("Got").i("n", n).raw("b", bytes(p.get(), n))); else emit(J("NoMore").i("n", n));
    return ok;
}
static void through(P::Stream& s, bool exists) {
    for (int k = 1 + rnd(2); k > 0; k--) {
        bool ok = s.start(); emit(J("Start").b("ok", ok).b("exists", exists));
        g_pos = 0;
        if (ok) { int lim = chance(20) ? rnd(10) : 100000; int i = 0; while (i++ < lim && rd(s)) {} for (int j = rnd(3); j > 0 && i < 5000; j--) rd(s); }
        s.stop(); emit(J("Stop")); if (chance(20)) { s.stop(); emit(J("Stop")); }
    }
}
static std::string content() {
    // mostly short; sometimes several pages of one interesting byte (end-of-file markers of other systems, newlines)
    if (g_huge) { std::string h(50000 + rnd(150000), 'h'); for (int k = rnd(40); k > 0; k--) h[rnd(h.size())] = (char)rnd(256); return h; }
    std::string s; size_t n = chance(10) ? 0 : chance(80) ? rnd(60) : rnd(3000);
    if (chance(6)) { static const unsigned char odd[] = {0, 255, 26, 10, 13, 4, 127, 128}; n = (1 + rnd(2)) * 4096 + rnd(3); return std::string(n, (char)odd[rnd(8)]); }
    for (size_t i = 0; i < n; i++) s += (char)(chance(10) ? 255 : rnd(256)); return s;
}
static std::string number(int max) { switch (rnd(8)) { case 0: return "0"; case 1: return std::to_string(max); case 2: return std::to_string(max + 1); case 3: return "0" + std::to_string(rnd(10)); default: return std::to_string(rnd(max + 1)); } }
static std::string describe() {
    std::string s; int parts = chance(80) ? 4 : rnd(6);
    for (int i = 0; i < parts; i++) { if (i) s += chance(97) ? "." : chance(50) ? ".." : ","; s += chance(96) ? number(255) : chance(50) ? "" : "a"; }
    if (chance(55)) s += ":" + (chance(90) ? number(65535) : chance(50) ? std::string("x") : std::string());
    if (chance(4)) s += chance(50) ? " " : "z";
    if (chance(4)) s = (chance(50) ? " " : "q") + s;
    if (chance(3)) s = chance(50) ? "" : "no-such-file";
    return s;
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    std::string dir = std::string(getenv("SCRATCH") ? getenv("SCRATCH") : ".") + "/streams." + std::to_string(getpid());
    mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) return 1;
    FILE* nul = freopen("/dev/null", "w", stderr); (void)nul;
    seq::run(a, false, [&](uint64_t n) {
        if (n % 2) {
            g_huge = chance(1) && chance(25); std::string c = content(); g_big = c.size() >= 4096; std::string p = "f" + std::to_string(getpid());
            int what = chance(85) ? 0 : chance(50) ? 1 : 2;     // file, directory, missing
            if (what == 0) { std::ofstream f(p, std::ios::binary); f << c; } else c.clear();
            if (what == 1) mkdir(p.c_str(), 0700);
            emit(J("File").raw("b", bytes(c)));
            { P::FileStream s(p); through(s, what != 2); }
            if (what == 1) rmdir(p.c_str()); else unlink(p.c_str());
        } else {
            g_huge = false; std::string d = describe(), c = content(); g_big = c.size() >= 4096; const char* what = "none";
            struct stat sb; bool there = !d.empty() && stat(d.c_str(), &sb) == 0;   // "." and the like
            if (there) { what = "dir"; c.clear(); }
            else if (chance(20) && !d.empty() && d.find('/') == std::string::npos) { std::ofstream f(d, std::ios::binary); f << c; what = "file"; }
            else if (chance(6) && !d.empty()) { if (mkdir(d.c_str(), 0700) == 0) { what = "dir"; c.clear(); } }
            g_connects = 0; memset(&g_addr, 0, sizeof g_addr);
            std::unique_ptr<P::Stream> s = HawkTracer::ClientUtils::make_stream_from_string(d);
            std::string kind = !s ? "none" : dynamic_cast<P::FileStream*>(s.get()) ? "file" : dynamic_cast<HawkTracer::ClientUtils::TCPClientStream*>(s.get()) ? "net" : "?";
            std::string r = "{\"kind\":\"" + kind + "\"";
            if (kind == "net") { s->start(); s->stop(); uint32_t ip = ntohl(g_addr.sin_addr.s_addr); r += ",\"connects\":" + std::to_string(g_connects) + ",\"ip\":[" + std::to_string(ip >> 24) + "," + std::to_string(ip >> 16 & 255) + "," + std::to_string(ip >> 8 & 255) + "," + std::to_string(ip & 255) + "],\"port\":" + std::to_string(ntohs(g_addr.sin_port)); }
            emit(J("File").raw("b", bytes(c)));
            emit(J("Made").raw("d", bytes(d)).t("what", what).raw("r", r + "}"));
            if (kind == "file") through(*s, true);
            s.reset();
            if (there) {} else if (!strcmp(what, "file")) unlink(d.c_str()); else if (!strcmp(what, "dir")) rmdir(d.c_str());
        }
    });
    if (chdir("/") == 0) rmdir(dir.c_str());
}
