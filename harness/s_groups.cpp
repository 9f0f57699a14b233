// Listener groups under concurrency (mode "named"), and the per-thread global
// timelines (mode "global"), under the deterministic scheduler.
#include "common.hpp"
#include "rt/vs.h"
#include <hawktracer.h>
#include <hawktracer/global_timeline.h>
#include <memory>
#include <thread>

struct Lst { int id; };
static std::vector<std::unique_ptr<Lst>>* g_ls;
static int g_ln, g_tn, g_en, g_blocks, g_need;
static thread_local int t_cur;

static void* counted(void* p, size_t n, void*) {
    { vs::Quiet q; if (p) g_blocks--; if (n) g_blocks++; }
    if (n == 0) { if (p) free(p); return nullptr; }
    return realloc(p, n);
}
static void on_events(TEventPtr e, size_t n, HT_Boolean, void* ud) {
    vs::point();
    vs::Quiet q;
    std::vector<long long> ids;
    for (size_t o = 0; o < n; o += sizeof(HT_Event)) { HT_Event v; memset(&v, 0, sizeof v); if (o + sizeof v <= n) memcpy(&v, e + o, sizeof v); ids.push_back(v.klass == HT_EVENT_KLASS_GET(HT_Event) ? (long long)v.id : -1); }
    vs::emit(J("Dlv").i("l", ((Lst*)ud)->id).i("tl", t_cur).list("evs", ids));
}
static void on_ser(TEventPtr e, size_t n, HT_Boolean, void* ud) {      // serialised: type(4) timestamp(8) id(8)
    vs::point();
    vs::Quiet q;
    std::vector<long long> ids;
    for (size_t o = 0; o < n; o += 20) { uint64_t v = 0; if (o + 20 <= n) memcpy(&v, e + o + 12, 8); else v = -1; ids.push_back(v); }
    vs::emit(J("Dlv").i("l", ((Lst*)ud)->id).i("tl", t_cur).list("evs", ids));
}
static void on_destroy(void* ud) { vs::point(); vs::emit(J("LGone").i("l", ((Lst*)ud)->id)); vs::Quiet q; g_need--; }
static std::string inv(const char* op, int tl) { return J("Inv").t("op", op).i("tl", tl); }
static std::string ret(const char* op, int tl) { return J("Ret").t("op", op).i("tl", tl).b("ok", true); }

static const char* NAMES[] = {"", "g", "g", "Ab", "BA"};
struct T { int id; HT_Timeline* p; };
static T create(const char* name) {
    int id; { vs::Quiet q; id = ++g_tn; }
    vs::emit(J("Inv").t("op", "create").i("tl", id).t("name", name));
    static const size_t caps[] = {1, sizeof(HT_Event), 3 * sizeof(HT_Event) + 1, 1000};
    HT_Timeline* p = ht_timeline_create(caps[vs::rnd(4)], vs::rnd(2), HT_FALSE, *name ? name : nullptr, nullptr);
    vs::emit(J("Ret").t("op", "create").i("tl", id).b("ok", p != nullptr));
    return T{id, p};
}
static void reg(T t, bool ser) {
    Lst* l; { vs::Quiet q; g_ls->emplace_back(new Lst{++g_ln}); l = g_ls->back().get(); }
    vs::emit(J("Inv").t("op", "reg").i("tl", t.id).i("l", l->id));
    t_cur = t.id;
    HT_ErrorCode r = ht_timeline_register_listener_full(t.p, ser ? on_ser : on_events, l, on_destroy);
    vs::emit(J("Ret").t("op", "reg").i("l", l->id).b("ok", r == HT_ERR_OK));
}
static void push(T t) {
    int id; { vs::Quiet q; id = ++g_en; }
    HT_DECL_EVENT(HT_Event, e); e.id = id; e.timestamp = 5;
    vs::emit(J("Inv").t("op", "push").i("tl", t.id).i("id", id));
    t_cur = t.id; ht_timeline_push_event(t.p, &e);
    vs::emit(ret("push", t.id));
}
static void flush(T t) { vs::emit(inv("flush", t.id)); t_cur = t.id; ht_timeline_flush(t.p); vs::emit(ret("flush", t.id)); }
static void destroy(T t) { vs::emit(inv("destroy", t.id)); t_cur = t.id; ht_timeline_destroy(t.p); vs::emit(ret("destroy", t.id)); }
static void deinit() { vs::emit(inv("deinit", 0)); ht_deinit(); vs::emit(ret("deinit", 0)); }

static void named() {
    int nthr = 2 + vs::rnd(2), arrived = 0;
    std::vector<std::thread> th;
    bool concurrent_deinit = vs::rnd(2);
    for (int i = 0; i < nthr; i++) th.emplace_back([&] {
        std::vector<T> mine; int n = 1 + vs::rnd(2);
        for (int k = 0; k < n; k++) { T t = create(NAMES[vs::rnd(5)]); { vs::Quiet q; mine.push_back(t); } if (vs::rnd(3)) reg(t, false); }
        { vs::Quiet q; arrived++; }
        vs::block([&] { return arrived == nthr; }, "phase");
        for (int k = vs::rnd(6); k > 0; k--) {
            if (mine.empty()) break;
            size_t w = vs::rnd(mine.size()); T t = mine[w];
            switch (vs::rnd(6)) {
                case 0: flush(t); break;
                case 1: destroy(t); { vs::Quiet q; mine.erase(mine.begin() + w); } break;
                case 2: if (!concurrent_deinit) { T u = create(NAMES[vs::rnd(5)]); vs::Quiet q; mine.push_back(u); } break;
                default: push(t);
            }
        }
        for (T t : mine) destroy(t);
    });
    if (concurrent_deinit) { vs::block([&] { return arrived == nthr; }, "phase"); deinit(); }
    for (auto& t : th) t.join();
    if (!concurrent_deinit) deinit();
}
static void global() {
    auto get = [](int id) { vs::emit(J("Inv").t("op", "create").i("tl", id).t("name", "HT_GlobalTimeline")); HT_Timeline* p = ht_global_timeline_get(); vs::emit(J("Ret").t("op", "create").i("tl", id).b("ok", p != nullptr)); return T{id, p}; };
    bool main_has = vs::rnd(2); T m{0, nullptr};
    if (main_has) { m = get(++g_tn); reg(m, true); }
    int nthr = 2 + vs::rnd(2), arrived = 0;
    std::vector<std::thread> th; std::vector<int> ids;
    for (int i = 0; i < nthr; i++) { vs::Quiet q; ids.push_back(++g_tn); }
    for (int i = 0; i < nthr; i++) th.emplace_back([&, i] {
        T t{ids[i], nullptr};
        bool early = vs::rnd(2);
        if (early) { t = get(ids[i]); if (vs::rnd(2)) reg(t, true); }
        { vs::Quiet q; arrived++; }
        vs::block([&] { return arrived == nthr; }, "phase");
        if (!early) t = get(ids[i]);
        for (int k = vs::rnd(5); k > 0; k--) {
            if (vs::rnd(5) == 0) flush(t);
            else {
                if (vs::rnd(3) == 0 && ht_global_timeline_get() != t.p) vs::emit(J("OtherTimeline"));
                push(t);
            }
        }
        vs::emit(inv("destroy", ids[i])); t_cur = ids[i];     // by the end of the thread
    });
    for (int i = 0; i < nthr; i++) { th[i].join(); vs::emit(ret("destroy", ids[i])); }
    if (main_has) flush(m);
    deinit();
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c), [&] {
            { vs::Quiet q; g_ls = new std::vector<std::unique_ptr<Lst>>; g_ln = g_tn = g_en = g_blocks = 0;
              ht_allocator_set(counted, nullptr);
              static const char* caps[] = {"20", "41", "100", "1000"};
              static char p[] = "p", o[] = "--ht-global-timeline-buffer-size"; char v[8]; strcpy(v, caps[vs::rnd(4)]);
              char* av[] = {p, o, v, nullptr};
              ht_init(3, av); }
            if (a.mode == "global") global(); else named();
            vs::emit(J("End").i("blocks", g_blocks));
        });
    }
    fclose(out);
}
