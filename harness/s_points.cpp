// Trace point macros of C and C++ code on timelines of several threads, under
// the deterministic scheduler: timelines of the threads' own or the global ones.
#include "common.hpp"
#include "rt/vs.h"
#include "points.h"
#include <hawktracer/thread.h>
#include <memory>
#include <thread>
#define PRE(x) cpp_##x
#define TABLE cpp_points
#include "points.inc"
static thread_local int t_cur;
static void on_points(TEventPtr p, size_t n, HT_Boolean ser, void*) {
    vs::point();
    vs::Quiet q;
    size_t o = 0; auto u = [&](int w) { uint64_t v = 0; if (o + w <= n) memcpy(&v, p + o, w); o += w; return v; };
    auto str = [&]() { std::string s; while (o < n && p[o]) s += (char)p[o++]; o++; return s; };
    auto dlv = [&](const char* m, const std::string& x) { vs::emit(J("Dlv").i("t", t_cur).t("m", m).t("x", x)); };
    auto map = [&](uint64_t i, const std::string& x) { vs::emit(J("Map").i("t", t_cur).t("id", u64s(i)).t("text", x)); };
    while (o < n) {
        if (ser) {
            uint32_t kid = u(4); u(8); u(8);
            if (kid == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) { uint64_t i = u(8); std::string s = str(); map(i, s); }
            else if (kid == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { u(8); u(4); dlv("i", u64s(u(8))); }
            else if (kid == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id) { u(8); u(4); dlv("s", str()); }
            else { vs::emit(J("Strange").i("k", kid)); return; }
        } else {
            HT_Event* e = (HT_Event*)(p + o); o += e->klass->type_info->size;
            if (e->klass == HT_EVENT_KLASS_GET(HT_StringMappingEvent)) map(((HT_StringMappingEvent*)e)->identifier, ((HT_StringMappingEvent*)e)->label);
            else if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) dlv("i", u64s(((HT_CallstackIntEvent*)e)->label));
            else if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)) dlv("s", ((HT_CallstackStringEvent*)e)->label);
            else { vs::emit(J("Strange")); return; }
        }
        if (o > n) { vs::emit(J("Torn")); return; }
    }
}
struct W { HT_Timeline* t; int id, left, depth; bool global, c, toss; char* spoil; };
struct Boom {};
static const char* WORDS[] = {"one", "two", "a longer text with spaces", "first", "upper", "caf\xc3\xa9", "x", ""};
static void points(W& w);
static void inside(void* u) { W& w = *(W*)u; if (w.spoil) { memset(w.spoil, '?', strlen(w.spoil)); w.spoil = nullptr; } w.depth++; points(w); w.depth--; vs::emit(J("Leave").i("t", w.id)); bool toss; { vs::Quiet q; toss = w.toss; w.toss = false; } if (toss) throw Boom(); }
static void points(W& w) {
    while (w.left > 0 && w.depth < 4 && vs::rnd(w.depth ? 2 : 10)) {
        w.left--;
        int n; const PointSite* s; uint64_t num; char* txt; bool toss;
        {
            vs::Quiet q;
            bool c = w.c ? vs::rnd(4) != 0 : vs::rnd(4) == 0;
            n = vs::rnd(w.global ? POINT_ALL : POINT_OWN); s = &(c ? c_points : cpp_points)[n];
            num = vs::rnd(3) ? vs::rnd(1000) : (uint64_t)vs::rnd(1u << 31) << 20;
            txt = strdup(WORDS[vs::rnd(8)]);
            toss = !c && vs::rnd(8) == 0;
            if (vs::rnd(9) == 0) ht_timeline_flush(w.t);
            vs::emit(J("Enter").i("t", w.id).t("m", std::string(1, s->mode)).t("lab", s->mode == 'i' ? u64s(num) : s->text ? s->text : txt));
        }
        w.spoil = s->mode == 'c' ? txt : nullptr;      // the text given to a cached trace point may go once it is open; others stay
        try { bool outer = w.toss; w.toss = false; if (toss) { struct N { static void b(void* u) { inside(u); throw Boom(); } }; s->go(w.t, txt, num, N::b, &w); } else s->go(w.t, txt, num, inside, &w); w.toss = outer; } catch (Boom&) {}
    }
}
static int g_n;
static HT_Timeline* get(bool global, int id) {
    t_cur = id;
    if (global) { vs::emit(J("Born").i("t", id)); return ht_global_timeline_get(); }
    static const size_t caps[] = {1, 60, 4000};
    vs::Quiet q;
    HT_Timeline* t = ht_timeline_create(caps[vs::rnd(3)], HT_FALSE, vs::rnd(2), nullptr, nullptr);
    ht_feature_callstack_enable(t); ht_feature_cached_string_enable(t, HT_FALSE);
    ht_timeline_register_listener(t, on_points, nullptr);
    vs::emit(J("Born").i("t", id)); return t;
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    FILE* out = fopen(a.out.c_str(), "w");
    for (uint64_t c = a.first; c < a.first + a.count; c++) {
        bool global = c % 2;
        vs::run_case(out, a.case_seed(c), J("Case").i("n", c).b("shared", global), [&] {
            bool cfirst = false; HT_Timeline* mt = nullptr; W mw{nullptr, 1, 0, 0, global, false, false, nullptr};
            { vs::Quiet q; static char a0[] = "x", a1[] = "--ht-buffer-size", a2[8]; strcpy(a2, vs::rnd(2) ? "64" : "1000"); char* av[] = {a0, a1, a2, nullptr}; ht_init(3, av);
              cfirst = vs::rnd(2); }
            if (global) { vs::Quiet q; mt = get(true, 1); ht_timeline_register_listener(mt, on_points, nullptr); }
            else if (vs::rnd(3) == 0) mt = get(false, 1);
            std::vector<std::thread> th; int n = 2 + vs::rnd(2);
            for (int i = 0; i < n; i++) th.emplace_back([&, i] {
                W w{nullptr, 2 + i, 1 + (int)vs::rnd(5), 0, global, cfirst, false, nullptr};
                w.t = get(global, w.id);
                points(w);
                if (!global) { ht_timeline_destroy(w.t); vs::emit(J("Gone").i("t", w.id)); }
            });
            if (mt) { mw.t = mt; mw.left = vs::rnd(4); mw.c = cfirst; points(mw); }
            for (int i = 0; i < n; i++) { th[i].join(); if (global) vs::emit(J("Gone").i("t", 2 + i)); }
            if (mt) { ht_timeline_flush(mt); vs::emit(J("Gone").i("t", 1)); if (!global) ht_timeline_destroy(mt); }
            vs::Quiet q; if (!global) ht_deinit();
        });
    }
    fclose(out);
}
