// The TCP listener: clients that come, read (slowly), and go at any moment;
// deliveries, stops and destruction by other threads.
#include "dump.hpp"
#include "rt/vs.h"
#include <hawktracer/alloc.h>
#include <hawktracer/listeners/tcp_listener.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace dump;
static int g_blocks;
static void* counted(void* p, size_t n, void*) {
    { vs::Quiet q; if (p) g_blocks--; if (n) g_blocks++; }
    if (n == 0) { if (p) free(p); return nullptr; }
    return realloc(p, n);
}
static Book* bk; static HT_TCPListener* L; static std::vector<std::vector<std::unique_ptr<Ev>>*>* g_keep;
static int g_wide;   // deliveries of many kilobytes left in this case
static uint64_t rn(uint64_t k) { return vs::rnd(k); }
static void deliver() {
    std::vector<std::unique_ptr<Ev>>* v; std::string* b; bool ser = vs::rnd(2); std::string* ln;
    { vs::Quiet q; v = new std::vector<std::unique_ptr<Ev>>; g_keep->push_back(v); int m = 1 + vs::rnd(3); if (g_wide > 0 && vs::rnd(2)) { g_wide--; m = 150 + vs::rnd(500); } for (int j = 0; j < m; j++) v->push_back(bk->make(rn, 40, false));
      b = new std::string(batch(*v, ser)); ln = new std::string(J("Ret").list("ms", nums(*v)));
      vs::emit(J("Inv").list("ms", nums(*v))); }
    ht_tcp_listener_callback((TEventPtr)b->data(), b->size(), ser, L);
    vs::emit(*ln);
}
static void stop() { vs::emit(J("StopInv")); ht_tcp_listener_stop(L); vs::emit(J("StopRet")); }
static void pause_some(int n) { for (int i = vs::rnd(n); i > 0; i--) vs::point(); }
static int g_in_hello, g_settled;   // clients that got their metadata, or left by themselves
static void hello(int fd, void*) { { vs::Quiet q; vs::emit(J("Hello").i("k", vs::conn_id(fd))); } for (int i = g_in_hello; i > 0; i--) deliver(); }
static void client(int port) {
    pause_some(60); if (vs::rnd(3) == 0) usleep(vs::rnd(3) * 1000);
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in ad; memset(&ad, 0, sizeof ad); ad.sin_family = AF_INET; ad.sin_port = htons(port); ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (connect(fd, (struct sockaddr*)&ad, sizeof ad) != 0) { close(fd); vs::Quiet q; g_settled++; return; }
    int k; bool settled = false; size_t ref; std::string* got; { vs::Quiet q; k = vs::conn_id(fd); ref = bk->ref[1]; got = new std::string; }
    long leave = vs::rnd(3) ? -1 : (vs::rnd(3) == 0 ? vs::rnd(ref) : ref + vs::rnd(vs::rnd(2) ? 100 : 400));
    size_t chunk = vs::rnd(3) == 0 ? 1 + vs::rnd(300) : 4000; bool slow = vs::rnd(2), whole = false; static thread_local char buf[4000];
    while (leave < 0 || (long)got->size() < leave) {
        ssize_t r = recv(fd, buf, chunk, 0);
        if (r < 0) { if (errno == EINTR) continue; break; }
        if (r == 0) { whole = true; break; }
        { vs::Quiet q; got->append(buf, r); if (!settled && got->size() >= ref) { settled = true; g_settled++; } }
        if (slow) { pause_some(20); if (vs::rnd(8) == 0) usleep(1000); }
    }
    { vs::Quiet q; if (!settled) g_settled++; }
    close(fd);
    vs::Quiet q;
    if (got->size() < ref) { vs::emit(J("Short").i("k", k).b("whole", whole).i("len", got->size())); }
    else vs::emit(bk->seen(J("Read").i("k", k).b("whole", whole), k + 100, *got, ref));
    delete got;
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    ht_allocator_set(counted, nullptr);
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            vs::g_eintr = vs::rnd(4) == 0; g_wide = vs::rnd(40) == 0 ? 2 : 0;
            int nt = 1 + vs::rnd(2), nc = vs::rnd(12) == 0 ? 9 + vs::rnd(3) : 1 + vs::rnd(3); bool racing = vs::rnd(2), viatl = vs::rnd(3) == 0, cb = vs::rnd(3) != 0;
            { vs::Quiet q;
              g_settled = 0; bk = new Book; g_keep = new std::vector<std::vector<std::unique_ptr<Ev>>*>; ht_init(0, nullptr);
              for (auto& k : core()) vs::emit(klass_line(k));
              bk->reference(1); g_in_hello = vs::rnd(3) == 0 ? 1 + vs::rnd(3) : 0;
            }
            { vs::Quiet q; g_blocks = 0; }
            static const size_t sizes[] = {0, 1, 20, 30, 64, 100, 1000};
            size_t bs = sizes[vs::rnd(7)];
            HT_Timeline* tl = nullptr; HT_ErrorCode err = HT_ERR_UNKNOWN;
            if (viatl) { tl = ht_timeline_create(1000, HT_TRUE, HT_FALSE, nullptr, nullptr); L = ht_tcp_listener_register(tl, 8765, bs, &err); }
            else L = ht_tcp_listener_create(8765, bs, &err);
            vs::emit(J("Open").b("ok", L != nullptr && err == HT_ERR_OK).b("busy", false));
            if (cb) ht_tcp_listener_set_on_client_connected_callback(L, hello, nullptr);
            if (vs::rnd(6) == 0) {
                int b0; { vs::Quiet q; b0 = g_blocks; }
                HT_TCPListener* l2 = viatl && vs::rnd(2) ? ht_tcp_listener_register(tl, 8765, bs, &err) : ht_tcp_listener_create(8765, bs, &err);
                vs::emit(J("Open").b("ok", l2 != nullptr || err == HT_ERR_OK || g_blocks != b0).b("busy", true));
            }
            std::vector<std::thread> cl, th;
            for (int i = 0; i < nc; i++) cl.emplace_back([&] { client(8765); });
            for (int t = 0; t < nt; t++) th.emplace_back([&] { for (int i = 1 + vs::rnd(5); i > 0; i--) { pause_some(40); if (vs::rnd(6) == 0) usleep(1000); deliver(); } });
            std::thread s1, s2;
            if (racing) {
                s1 = std::thread([&] { pause_some(300); if (vs::rnd(2)) usleep(2000); stop(); if (vs::rnd(2)) stop(); });
                if (vs::rnd(2)) s2 = std::thread([&] { pause_some(300); if (vs::rnd(2)) usleep(2000); stop(); });
            }
            for (auto& t : th) t.join();
            if (s1.joinable()) s1.join(); if (s2.joinable()) s2.join();
            // while it runs, everybody who connects is served in the end
            if (!racing && vs::rnd(2)) vs::block([&] { return g_settled == nc; }, "served");
            if (!racing) { if (vs::rnd(2)) usleep(10000); if (vs::rnd(2)) { stop(); if (vs::rnd(3) == 0) deliver(); } }
            vs::emit(J("StopInv"));
            if (viatl) ht_timeline_destroy(tl); else ht_tcp_listener_destroy(L);
            vs::emit(J("StopRet"));
            for (auto& t : cl) t.join();
            vs::Quiet q; vs::emit(J("End").i("socks", vs::open_sockets()).i("blocks", g_blocks));
        });
    }
    fclose(out);
}
