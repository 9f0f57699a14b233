// Feature classes registered by concurrent threads, enabled on and looked up
// in their own timelines.
#include "common.hpp"
#include "rt/vs.h"
#include <hawktracer.h>
#include <hawktracer/alloc.h>
#include <thread>
struct Feat { HT_Feature base; int i; };
static HT_FeatureKlass g_k[40];
static int g_n, g_blocks;
static void* counted(void* p, size_t n, void*) {
    { vs::Quiet q; if (p) g_blocks--; if (n) g_blocks++; }
    if (n == 0) { if (p) free(p); return nullptr; }
    return realloc(p, n);
}
static void gone(HT_Feature* f) { { vs::Quiet q; vs::emit(J("Gone").i("i", ((Feat*)f)->i)); } ht_free(f); }
static int reg(int t, int c) {
    { vs::Quiet q; vs::emit(J("RegInv").i("t", t).i("c", c)); }
    HT_ErrorCode e = ht_registry_register_feature(&g_k[c]);
    long id = g_k[c].id == HT_INVALID_FEATURE_ID ? -1 : (long)g_k[c].id;
    vs::Quiet q; vs::emit(J("RegRet").i("t", t).b("ok", e == HT_ERR_OK).i("id", id));
    return id;
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    ht_allocator_set(counted, nullptr);
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            { vs::Quiet q; ht_init(0, nullptr); g_n = 0; for (auto& k : g_k) { k.id = HT_INVALID_FEATURE_ID; k.destroy = gone; } g_blocks = 0; }
            // a few classes for everybody; sometimes so many that the room runs out
            int nc = vs::rnd(4) ? 1 + vs::rnd(4) : 40, pre = nc == 40 ? 24 + vs::rnd(7) : 0, nt = 2 + vs::rnd(3);
            for (int i = 0; i < pre; i++) reg(100, i);
            std::vector<std::thread> th;
            for (int t = 1; t <= nt; t++) th.emplace_back([&, t] {
                HT_Timeline* tl = ht_timeline_create(64, HT_FALSE, vs::rnd(2), nullptr, nullptr);
                for (int s = 1 + vs::rnd(6); s > 0; s--) {
                    int k = nc == 40 && vs::rnd(4) ? 24 + vs::rnd(10) : vs::rnd(nc), r = vs::rnd(10);
                    bool known = false;
                    if (r < 5) known = reg(t, k) >= 0;
                    if (r >= 7 || known) {
                        Feat* f = (Feat*)ht_alloc(sizeof *f); f->base.klass = &g_k[k]; { vs::Quiet q; f->i = ++g_n; vs::emit(J("EnableInv").i("t", t).i("c", k)); } int i = f->i;
                        // once handed over, the instance may be gone
                        bool ok = ht_timeline_set_feature(tl, &f->base) == HT_ERR_OK;
                        { vs::Quiet q; vs::emit(J("EnableRet").i("t", t).i("c", k).i("i", i).b("ok", ok)); }
                    }
                    if (r >= 4) { Feat* f = (Feat*)ht_timeline_get_feature(tl, &g_k[k]); vs::Quiet q; vs::emit(J("Lookup").i("t", t).i("c", k).i("i", f ? f->i : 0)); }
                }
                if (vs::rnd(2)) vs::point();
                { vs::Quiet q; vs::emit(J("TlGoes").i("t", t)); }
                ht_timeline_destroy(tl);
                vs::Quiet q; vs::emit(J("TlGone").i("t", t));
            });
            for (auto& t : th) t.join();
            vs::Quiet q; vs::emit(J("Quiet")); vs::emit(J("End").i("made", g_n).i("blocks", g_blocks));
        });
    }
    fclose(out);
}
