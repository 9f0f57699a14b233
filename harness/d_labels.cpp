#include "seq.hpp"
#include <hawktracer.h>
#include <sys/mman.h>
using namespace seq;
#define POINT()
#define QUIET()
#define EMIT(x) emit(x)
#include "labels.inc"
static std::string word(int i) {
    // many labels, some with equal djb2 hashes ("Ab"/"BA" in every position), prefixes of each other, long ones
    static const int pre[] = {0, 1, 31, 61, 63, 64, 127, 300, 1023, 2};
    switch (i % 6) {
        case 0: return std::string(pre[i / 40 % 10], 'p') + ((i / 6) % 2 ? "Ab" : "BA") + ((i / 12) % 2 ? "Ab" : "BA");
        case 5: return std::string(pre[i / 60 % 10], 'n') + (i % 12 == 5 ? "A" : "B") + (char)((i % 12 == 5 ? 'b' : 'A') + i / 12 % 4);   // hashes next to each other
        case 1: return "label " + std::to_string(i);
        case 2: return std::string(i % 50, 'x');
        case 3: return "\xff\xfe" + std::to_string(i / 7);
        default: return std::string(1 + (i * 37) % 700, 'q');
    }
}
// labels that share a bucket of the map: addresses 512 apart, texts by their hash
alignas(512) static char g_pool[50 * 512];
static std::vector<std::string> crowd(unsigned b) {
    std::vector<std::string> r;
    for (int i = 0; r.size() < 45; i++) { std::string w = "w" + std::to_string(i); uint32_t h = 5381; for (char c : w) h = h * 33 + (unsigned char)c; if (h % 512 == b) r.push_back(w); }
    return r;
}
static void add_at(HT_Timeline* t, unsigned b, int n, bool touse) {
    char* s = g_pool + 512 * n + b; std::string k = "p" + std::to_string(n);
    if (!*s) strcpy(s, ("text " + std::to_string(n)).c_str());
    emit(J("InvAdd").t("k", k).t("text", s));
    uintptr_t i = ht_feature_cached_string_add_mapping(t, s);
    emit(J("RetAdd").t("k", k).t("id", u64s(i)));
    if (touse) use(t, i);
}
// labels at addresses that differ only above the lower half of the bits
static char* far_at(int n) {
    static char* at[4]; static bool tried;
    if (!tried) { tried = true; for (int i = 0; i < 4; i++) { void* want = (void*)(0x200010000000ull + ((uint64_t)i << 32)); void* p = mmap(want, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); at[i] = p == want ? (char*)p : nullptr; } }
    return at[n];
}
static void add_far(HT_Timeline* t, int n, int off, bool touse) {
    char* s = far_at(n); if (!s) return;
    s += off; std::string k = "f" + std::to_string(n) + "." + std::to_string(off);
    strcpy(s, ("far " + std::to_string(n)).c_str());
    emit(J("InvAdd").t("k", k).t("text", s));
    uintptr_t i = ht_feature_cached_string_add_mapping(t, s);
    emit(J("RetAdd").t("k", k).t("id", u64s(i)));
    if (touse) use(t, i);
}
static void one() {
    bool wide = chance(15);
    memset(g_pool, 0, sizeof g_pool);
    bool crowded = chance(25); unsigned bucket = chance(50) ? 511 : chance(30) ? 0 : rnd(512); std::vector<std::string> cw; if (crowded) cw = crowd(bucket);
    ht_init(0, nullptr); g_calls = 0;
    static const size_t caps[] = {1, 40, 100, 600, 8000};
    HT_Timeline* t = ht_timeline_create(caps[rnd(5)], rnd(2), HT_TRUE, nullptr, nullptr);
    ht_feature_callstack_enable(t);
    ht_feature_cached_string_enable(t, rnd(2));
    ht_timeline_register_listener(t, on_labels, nullptr);
    int steps = 5 + rnd(60), range = chance(20) ? 400 : 25; if (range == 400 || (crowded && chance(50))) steps = 80 + rnd(60);
    for (int i = 0; i < steps; i++) {
        unsigned r = rnd(100);
        if (wide && chance(40)) add_far(t, rnd(4), rnd(3) * 512, rnd(2));
        else if (r < 25) add_static(t, rnd(10), rnd(2));
        else if (crowded && r < 50) add_at(t, bucket, rnd(45), rnd(2));
        else if (crowded && r < 80) add_dyn(t, cw[rnd(45)], rnd(2));
        else if (r < 88) add_dyn(t, word(rnd(range)), rnd(2));
        else if (r < 93) resend(t);
        else { ht_timeline_flush(t); emit(J("Settled")); }
    }
    ht_timeline_flush(t); emit(J("Settled"));
    resend(t);
    ht_timeline_flush(t); emit(J("Settled"));
    ht_timeline_destroy(t);
    ht_deinit();
}
int main(int argc, char** argv) { Args a(argc, argv); seq::run(a, false, [](uint64_t) { one(); }); }
