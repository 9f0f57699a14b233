// Random sequences of memory calls with any subset of hooks registered.
#include "seq.hpp"
#include <hawktracer.h>
#include <hawktracer/alloc_hooks.h>
#include <sys/mman.h>
#include <malloc.h>
#include <thread>
using namespace seq;
struct Rec { int op, when, fn; void *ret, *ptr; size_t a, b; void* ud; int old; };
static __thread Rec g_rec[64]; static __thread int g_n; static __thread bool g_on;
struct Blk { unsigned char* p; size_t n; unsigned char v; };
static Blk g_b[64]; static int g_nb;
static bool same(const Blk& k, size_t n) { for (size_t i = 0; i < n; i++) if (k.p[i] != (unsigned char)(k.v + i * 7)) return false; return true; }
static void fill(Blk& k) { for (size_t i = 0; i < k.n; i++) k.p[i] = (unsigned char)(k.v + i * 7); }
static Blk* blk(void* p) { for (int i = 0; i < g_nb; i++) if (g_b[i].p == p) return &g_b[i]; return nullptr; }
static bool mapped(void* p) { unsigned char v; return mincore((void*)((uintptr_t)p & ~4095ul), 1, &v) == 0; }
static const size_t BIG = 8u << 20;   // such blocks have a mapping of their own
// what is visible of the block the call is about: 0 nothing to say, 1 there, 2 gone, 3 changed
static int look(void* p, bool post, bool isfree) {
    Blk* k = p ? blk(p) : nullptr; if (!k) return 0;
    if (k->n >= BIG && !mapped(p)) return 2;
    if (post) return isfree && k->n >= BIG ? 1 : 0;
    return same(*k, k->n < 4096 ? k->n : 4096) ? 1 : 3;
}
static void rec(int op, int when, int fn, void* ret, void* ptr, size_t a, size_t b, void* ud) {
    if (!g_on) return;
    if (g_n < 64) g_rec[g_n++] = Rec{op, when, fn, ret, ptr, a, b, ud, look(ptr, when == 1, op == 3)};
    if (ud && ((uintptr_t)ud & 64)) {   // a hook that needs memory itself
        void* t = ht_alloc_hooks_malloc_skip_hook(40); if (t) memset(t, 1, 40); t = ht_alloc_hooks_realloc_skip_hook(t, 90); ht_alloc_hooks_free_skip_hook(t);
        t = ht_alloc_hooks_calloc_skip_hook(3, 9); ht_alloc_hooks_free_skip_hook(t);
    }
}
template <int W, int F> static void hm(void* r, size_t s, void* u) { rec(0, W, F, r, nullptr, s, 0, u); }
template <int W, int F> static void hc(void* r, size_t n, size_t s, void* u) { rec(1, W, F, r, nullptr, n, s, u); }
template <int W, int F> static void hr(void* r, void* p, size_t s, void* u) { rec(2, W, F, r, p, s, 0, u); }
template <int W, int F> static void hf(void* p, void* u) { rec(3, W, F, nullptr, p, 0, 0, u); }
static const HT_AllocHookMalloc M[2][3] = {{0, hm<0, 1>, hm<0, 2>}, {0, hm<1, 1>, hm<1, 2>}};
static const HT_AllocHookCalloc K[2][3] = {{0, hc<0, 1>, hc<0, 2>}, {0, hc<1, 1>, hc<1, 2>}};
static const HT_AllocHookRealloc R[2][3] = {{0, hr<0, 1>, hr<0, 2>}, {0, hr<1, 1>, hr<1, 2>}};
static const HT_AllocHookFree F[2][3] = {{0, hf<0, 1>, hf<0, 2>}, {0, hf<1, 1>, hf<1, 2>}};
static std::string ps(void* p) { if (!p) return "\"null\""; char b[40]; snprintf(b, sizeof b, "\"%p\"", p); return b; }
static std::string zs(size_t n) { return "\"" + std::to_string(n) + "\""; }
static std::string hooks() {
    static const char* on[] = {"malloc", "calloc", "realloc", "free"}; static const char* ol[] = {"none", "there", "gone", "changed"};
    std::string r = "[";
    for (int i = 0; i < g_n; i++) { Rec& x = g_rec[i];
        std::string a = x.op == 0 ? zs(x.a) : x.op == 1 ? zs(x.a) + "," + zs(x.b) : x.op == 2 ? ps(x.ptr) + "," + zs(x.a) : ps(x.ptr);
        r += std::string(i ? "," : "") + "{\"op\":\"" + on[x.op] + "\",\"when\":\"" + (x.when ? "post" : "pre") + "\",\"fn\":" + std::to_string(x.fn) + ",\"a\":[" + a + "],\"ret\":" + ps(x.ret) + ",\"ud\":" + ps(x.ud) + ",\"old\":\"" + ol[x.old] + "\"}"; }
    return r + "]";
}
static void* (*volatile v_malloc)(size_t) = malloc; static void* (*volatile v_calloc)(size_t, size_t) = calloc;
static void* (*volatile v_realloc)(void*, size_t) = realloc; static void (*volatile v_free)(void*) = free;
static size_t size() { int r = rnd(100); return r < 70 ? 1 + rnd(300) : r < 80 ? 1 + rnd(40000) : r < 86 ? 0 : r < 92 ? BIG + rnd(5000) : ~(size_t)0 - rnd(100) * (chance(50) ? 1 : 4096); }
static bool others() { for (int i = 0; i < g_nb; i++) if (!same(g_b[i], g_b[i].n < 4096 ? g_b[i].n : 4096)) return false; return true; }
static void call() {
    bool skip = chance(25); int op = rnd(4); void* ret = nullptr; bool good = true, fits = true, zero = false; std::string a, sz = "\"0\"";
    if (op < 2 && g_nb == 64) op = 3;
    g_n = 0; void* old = nullptr; int e = 0;
    if (op == 0) {
        size_t n = size(); fits = n <= (64u << 20); zero = n == 0; sz = zs(n); a = sz;
        errno = 0; g_on = true; ret = skip ? ht_alloc_hooks_malloc_skip_hook(n) : v_malloc(n); g_on = false; e = errno;
        good = others(); if (ret) { Blk k{(unsigned char*)ret, n, (unsigned char)rnd(256)}; fill(k); good = good && others(); g_b[g_nb++] = k; }
    } else if (op == 1) {
        size_t n, m; if (chance(85)) { m = 1 + rnd(50); n = rnd(400); if (chance(5)) n = BIG; if (chance(8)) m = 0; } else { n = (size_t)1 << (32 + rnd(20)); m = (size_t)1 << (32 - rnd(3)) ; if (chance(30)) m = ~(size_t)0; }
        if (chance(50)) std::swap(n, m);
        unsigned __int128 t = (unsigned __int128)n * m; fits = t <= ((size_t)512 << 20); zero = t == 0; size_t tot = fits ? (size_t)t : 0; sz = zs(tot); a = zs(n) + "," + zs(m);
        errno = 0; g_on = true; ret = skip ? ht_alloc_hooks_calloc_skip_hook(n, m) : v_calloc(n, m); g_on = false; e = errno;
        good = others(); if (ret) { if (tot > BIG * 4) tot = tot; size_t lim = tot < 70000 ? tot : 70000; for (size_t i = 0; i < lim; i++) if (((unsigned char*)ret)[i]) good = false; if (tot && ((unsigned char*)ret)[tot - 1]) good = false;
            Blk k{(unsigned char*)ret, tot < BIG ? tot : tot, (unsigned char)rnd(256)}; if (tot > (16u << 20)) { ht_alloc_hooks_free_skip_hook(ret); emit(J("Call").t("op", "calloc").b("skip", skip).raw("a", "[" + a + "]").raw("ret", ps(ret)).raw("size", sz).b("fits", fits).b("zero", zero).b("good", good).raw("hooks", hooks())); emit(J("Call").t("op", "free").b("skip", true).raw("a", "[" + ps(ret) + "]").raw("ret", "\"null\"").raw("size", "\"0\"").b("fits", true).b("zero", false).b("good", true).raw("hooks", "[]")); return; }
            fill(k); good = good && others(); g_b[g_nb++] = k; }
    } else if (op == 2) {
        int i = g_nb && chance(90) ? (int)rnd(g_nb) : -1; if (i < 0 && g_nb == 64) i = 0; size_t n = size(); if (n == 0 && chance(50)) n = 1; fits = n <= (64u << 20); zero = n == 0; sz = zs(n);
        old = i < 0 ? nullptr : g_b[i].p; a = ps(old) + "," + sz;
        errno = 0; g_on = true; ret = skip ? ht_alloc_hooks_realloc_skip_hook(old, n) : v_realloc(old, n); g_on = false; e = errno;
        if (i >= 0) { Blk k = g_b[i];
            if (ret) { size_t m = std::min(k.n, n); k.p = (unsigned char*)ret; good = same(k, m); k.n = n; k.v = rnd(256); g_b[i] = g_b[--g_nb]; good = good && others(); fill(k); good = good && others(); g_b[g_nb++] = k; }
            else if (zero) { g_b[i] = g_b[--g_nb]; good = others(); } else good = others(); }
        else { good = others(); if (ret) { Blk k{(unsigned char*)ret, n, (unsigned char)rnd(256)}; fill(k); good = good && others(); g_b[g_nb++] = k; } }
    } else {
        int i = g_nb && chance(90) ? (int)rnd(g_nb) : -1; old = i < 0 ? nullptr : g_b[i].p; a = ps(old);
        g_on = true; if (skip) ht_alloc_hooks_free_skip_hook(old); else v_free(old); g_on = false;
        if (i >= 0) g_b[i] = g_b[--g_nb]; good = others();
    }
    if (ret && ((uintptr_t)ret & 15)) good = false;
    if (!fits && e != ENOMEM) good = false;
    static const char* on[] = {"malloc", "calloc", "realloc", "free"};
    emit(J("Call").t("op", on[op]).b("skip", skip).raw("a", "[" + a + "]").raw("ret", ps(ret)).raw("size", sz).b("fits", fits).b("zero", zero).b("good", good).raw("hooks", hooks()));
}
static void indirect() {   // strdup, new: a malloc and a free made by somebody else
    g_n = 0; void* p; bool good; size_t n = 1 + rnd(60);
    if (chance(50)) { char s[80]; memset(s, 'x', n); s[n] = 0; g_on = true; char* d = strdup(s); p = d; good = !strcmp(d, s); free(d); g_on = false; n++; }
    else { g_on = true; char* d = (char*)operator new(n); p = d; good = true; operator delete(d); g_on = false; }
    emit(J("Indirect").raw("a", "[" + zs(n) + "]").raw("ret", ps(p)).b("good", good).raw("hooks", hooks()));
}
static void reg() {
    int f[8]; std::string r = "{"; static const char* on[] = {"malloc", "calloc", "realloc", "free"}; int style = rnd(4);
    for (int i = 0; i < 8; i++) f[i] = style == 0 ? 0 : style == 1 ? 1 + rnd(2) : rnd(3);
    for (int i = 0; i < 4; i++) r += std::string(i ? "," : "") + "\"" + on[i] + "\":{\"pre\":" + std::to_string(f[2 * i]) + ",\"post\":" + std::to_string(f[2 * i + 1]) + "}";
    void* ud = chance(10) ? nullptr : (void*)(uintptr_t)(0x1000 + rnd(8) * 16);
    ht_alloc_hooks_register_hooks(M[0][f[0]], M[1][f[1]], K[0][f[2]], K[1][f[3]], R[0][f[4]], R[1][f[5]], F[0][f[6]], F[1][f[7]], ud);
    emit(J("Register").raw("reg", r + "}").raw("ud", ps(ud)));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    seq::run(a, false, [&](uint64_t n) {
        mallopt(M_MMAP_THRESHOLD, 1 << 20); g_nb = 0;
        auto run = [&] { for (int k = 3 + rnd(30); k > 0; k--) { int r = rnd(100); if (r < 10) reg(); else if (r < 16) indirect(); else call(); } };
        if (chance(70)) reg();
        run(); if (chance(20)) { std::thread t(run); t.join(); run(); }
        ht_alloc_hooks_register_hooks(0, 0, 0, 0, 0, 0, 0, 0, nullptr);
        for (int i = 0; i < g_nb; i++) free(g_b[i].p); g_nb = 0;
    });
}
