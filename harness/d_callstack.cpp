// Random nested scopes on a timeline, opened in every way the library offers,
// under a controlled clock; every delivered event is recorded field by field.
#include "seq.hpp"
#include "vclock.hpp"
#include "events.h"
#include <hawktracer.h>
#include <hawktracer/thread.h>
extern "C" {
void tp_c_int(HT_Timeline* t, uint64_t l, void (*body)(void*), void* ud);
void tp_c_string(HT_Timeline* t, const char* l, void (*body)(void*), void* ud);
void tp_c_trace(HT_Timeline* t, const char* l, void (*body)(void*), void* ud);
void tp_c_func(HT_Timeline* t, void (*body)(void*), void* ud);
}
#include <deque>
#include <stdexcept>
#include <thread>
using namespace seq;
static HT_Timeline* g_t; static bool g_ser; static int g_left, g_depth, g_maxdepth, g_widefrom, g_widep = 15;
static std::deque<std::string> g_keep;         // labels stay alive while their scope is open
static std::string tm(int64_t s, int64_t n) { return "[" + std::to_string(s) + "," + std::to_string(n) + "]"; }
static std::string tmns(uint64_t v) { return tm(v / 1000000000ull, v % 1000000000ull); }
// scopes with an event of any size (only handed over unserialised)
static const size_t WIDE[] = {200, 900, 1025, 1400, 2100, 5000};
static HT_EventKlass g_wk[6]; static MKCREFLECT_TypeInfo g_wi[6];
static std::string hash(const char* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (uint8_t)p[i]) * 1099511628211ull; return u64s(h); }
static int wide(const HT_EventKlass* k) { for (int i = 0; i < 6; i++) if (k == &g_wk[i]) return i; return -1; }
static void tick() {
    switch (rnd(6)) {
        case 0: break;
        case 1: vclock::nsec += rnd(1000); break;
        case 2: vclock::nsec += rnd(1000000000); break;
        case 3: vclock::sec += rnd(10); vclock::nsec += rnd(1000000000); break;
        case 4: vclock::sec += rnd(100000); break;
        default: vclock::nsec += 1;
    }
    if (vclock::nsec >= 1000000000) { vclock::nsec -= 1000000000; vclock::sec++; }
}
static std::string now() { return tm(vclock::sec, vclock::nsec); }
static void dlv(uint64_t id, uint64_t ts, uint64_t dur, uint64_t th, const std::string& k, const std::string& lab, const std::string& rest) {
    emit(J("Dlv").t("k", k).t("lab", lab).t("rest", rest).raw("ts", tmns(ts)).raw("dur", tmns(dur)).i("th", th).i("id", id));
}
static void on_raw(TEventPtr p, size_t n, HT_Boolean, void*) {
    for (size_t o = 0; o < n;) {
        HT_Event* e = (HT_Event*)(p + o);
        if (n - o < sizeof(HT_Event)) { emit(J("Torn")); return; }
        HT_CallstackBaseEvent* b = (HT_CallstackBaseEvent*)e;
        std::string k = e->klass->type_info->name, lab, rest; size_t sz = e->klass->type_info->size;
        if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)) lab = u64s(((HT_CallstackIntEvent*)e)->label);
        else if (e->klass == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)) lab = ((HT_CallstackStringEvent*)e)->label;
        else if (e->klass == HT_EVENT_KLASS_GET(VBase)) { lab = ((VBase*)e)->label; rest = u64s(((VBase*)e)->code); }
        else if (e->klass == HT_EVENT_KLASS_GET(VDeep)) { VDeep* d = (VDeep*)e; lab = d->base.label; rest = u64s(d->base.code) + "/" + u64s(d->extra) + "/" + u64s((uintptr_t)d->ptr) + "/" + d->note; }
        else if (wide(e->klass) >= 0) { if (n - o < sz) { emit(J("Torn")); return; } rest = hash((const char*)(b + 1), sz - sizeof *b); }
        else if (e->klass != HT_EVENT_KLASS_GET(HT_CallstackBaseEvent)) { emit(J("Strange").t("k", k)); return; }
        dlv(e->id, e->timestamp, b->duration, b->thread_id, k, lab, rest);
        o += sz;
    }
}
static void on_ser(TEventPtr p, size_t n, HT_Boolean, void*) {
    size_t o = 0; auto u = [&](int w) { uint64_t v = 0; if (o + w <= n) memcpy(&v, p + o, w); o += w; return v; };
    auto str = [&]() { std::string s; while (o < n && p[o]) s += (char)p[o++]; o++; return s; };
    while (o < n) {
        uint32_t kid = u(4); uint64_t ts = u(8), id = u(8), dur = u(8); uint32_t th = u(4); std::string k, lab, rest;
        if (kid == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { k = "HT_CallstackIntEvent"; lab = u64s(u(8)); }
        else if (kid == HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id) { k = "HT_CallstackStringEvent"; lab = str(); }
        else if (kid == HT_EVENT_KLASS_GET(VBase)->klass_id) { k = "VBase"; rest = u64s(u(2)); lab = str(); }
        else if (kid == HT_EVENT_KLASS_GET(VDeep)->klass_id) { k = "VDeep"; rest = u64s(u(2)); lab = str(); rest += "/" + u64s(u(8)); rest += "/" + u64s(u(sizeof(void*))); rest += "/" + str(); }
        else if (kid == HT_EVENT_KLASS_GET(HT_CallstackBaseEvent)->klass_id) k = "HT_CallstackBaseEvent";
        else { emit(J("Strange").i("k", kid)); return; }
        if (o > n) { emit(J("Torn")); return; }
        dlv(id, ts, dur, th, k, lab, rest);
    }
}
static const char* text() { g_keep.emplace_back(chance(85) ? rnd(12) : rnd(400), 'a' + rnd(26)); if (chance(30)) g_keep.back() += "\xc3\xa9 \"x\""; return g_keep.back().c_str(); }
static void start_ev(const std::string& k, const std::string& lab, const std::string& rest, long long id) { emit(J("Start").t("k", k).t("lab", lab).t("rest", rest).raw("at", now()).i("id", id)); }
static void stop_ev() { emit(J("Stop").raw("at", now()).i("th", ht_thread_get_current_thread_id())); }
static void scopes(void*);
static void leave() { tick(); stop_ev(); }
static void body(void*) { g_depth++; scopes(nullptr); g_depth--; leave(); }
struct Boom {};
static void scopes(void*) {
    while (g_left > 0 && chance(g_depth == 0 ? 97 : g_depth < 3 ? 75 : g_depth < g_maxdepth ? (g_maxdepth > 100 ? 85 : 62) : 0)) {
        g_left--;
        tick();
        if (chance(6)) { ht_timeline_flush(g_t); emit(J("Flushed")); }
        if (!g_ser && g_depth >= g_widefrom && chance(g_widep)) {
            int w = rnd(6); std::unique_ptr<char[]> m(new char[WIDE[w]]); memset(m.get(), 0, WIDE[w]); HT_CallstackBaseEvent* e = (HT_CallstackBaseEvent*)m.get();
            e->base.klass = &g_wk[w]; for (size_t i = sizeof *e; i < WIDE[w]; i++) m[i] = (char)rnd(256);
            ht_feature_callstack_start(g_t, e); start_ev(g_wi[w].name, "", hash(m.get() + sizeof *e, WIDE[w] - sizeof *e), e->base.id);
            m.reset(); body(nullptr); ht_feature_callstack_stop(g_t); continue;
        }
        switch (rnd(11)) {
            case 0: { uint64_t l = rnd(3) ? rnd(100) : rnd(); start_ev("HT_CallstackIntEvent", u64s(l), "", -1); ht_feature_callstack_start_int(g_t, l); body(nullptr); ht_feature_callstack_stop(g_t); break; }
            case 1: { const char* l = text(); start_ev("HT_CallstackStringEvent", l, "", -1); ht_feature_callstack_start_string(g_t, l); body(nullptr); ht_feature_callstack_stop(g_t); break; }
            case 2: case 3: {
                HT_DECL_EVENT(VDeep, d); HT_DECL_EVENT(VBase, v); HT_CallstackBaseEvent* e; std::string k, lab, rest;
                if (rnd(2)) { d.base.label = text(); d.base.code = rnd(); d.extra = rnd(); d.ptr = (void*)(uintptr_t)rnd(); d.note = text(); k = "VDeep"; lab = d.base.label; rest = u64s(d.base.code) + "/" + u64s(d.extra) + "/" + u64s((uintptr_t)d.ptr) + "/" + d.note; e = (HT_CallstackBaseEvent*)&d; }
                else { v.label = text(); v.code = rnd(); k = "VBase"; lab = v.label; rest = u64s(v.code); e = (HT_CallstackBaseEvent*)&v; }
                e->duration = 77; e->thread_id = 99;       // overwritten by the library
                ht_feature_callstack_start(g_t, e);
                start_ev(k, lab, rest, e->base.id);
                memset(&d, 0, sizeof d); memset(&v, 0, sizeof v);   // the library keeps its own copy
                body(nullptr); ht_feature_callstack_stop(g_t); break; }
            case 4: { uint64_t l = rnd(3) ? rnd(1000) : rnd(); start_ev("HT_CallstackIntEvent", u64s(l), "", -1); HT_TP_SCOPED_INT(g_t, l); body(nullptr); break; }
            case 5: { const char* l = text(); start_ev("HT_CallstackStringEvent", l, "", -1); HT_TP_SCOPED_STRING(g_t, l); body(nullptr); break; }
            case 6: { uint64_t l = rnd(3) ? rnd(1000) : rnd(); start_ev("HT_CallstackIntEvent", u64s(l), "", -1); tp_c_int(g_t, l, body, nullptr); break; }
            case 7: { const char* l = text(); start_ev("HT_CallstackStringEvent", l, "", -1); rnd(2) ? tp_c_string(g_t, l, body, nullptr) : tp_c_trace(g_t, l, body, nullptr); break; }
            case 8: { start_ev("HT_CallstackStringEvent", "tp_c_func", "", -1); tp_c_func(g_t, body, nullptr); break; }
            case 9: { // scope left by an exception
                try { const char* l = text(); start_ev("HT_CallstackStringEvent", l, "", -1); HT_TP_SCOPED_STRING(g_t, l); body(nullptr); throw Boom(); } catch (Boom&) {} break; }
            default: { HT_DECL_EVENT(HT_CallstackBaseEvent, b); ht_feature_callstack_start(g_t, &b); start_ev("HT_CallstackBaseEvent", "", "", b.base.id); body(nullptr); ht_feature_callstack_stop(g_t); }
        }
    }
}
static void one() {
    vclock::sec = 1 + rnd(2000000); vclock::nsec = rnd(1000000000); g_keep.clear();
    ht_init(0, nullptr);
    HT_REGISTER_EVENT_KLASS(VBase); HT_REGISTER_EVENT_KLASS(VDeep);
    static std::string names[6];
    for (int i = 0; i < 6; i++) { names[i] = "Wide" + std::to_string(WIDE[i]); g_wi[i].name = names[i].c_str(); g_wi[i].size = WIDE[i]; g_wk[i].type_info = &g_wi[i]; }
    auto work = [] {
        static const size_t caps[] = {1, 30, 64, 100, 400, 5000};
        g_ser = rnd(2); g_depth = 0; g_maxdepth = chance(15) ? 120 : 6; g_left = g_maxdepth > 100 ? 250 : 5 + rnd(30); g_widefrom = g_maxdepth > 100 ? rnd(40) : rnd(12); g_widep = chance(20) ? 70 : 15;
        g_t = ht_timeline_create(caps[rnd(6)], rnd(2), g_ser, nullptr, nullptr);
        ht_feature_callstack_enable(g_t);
        ht_timeline_register_listener(g_t, g_ser ? on_ser : on_raw, nullptr);
        scopes(nullptr);
        int open = chance(30) ? 1 + rnd(3) : 0;            // left open: nothing is emitted for them
        for (int i = 0; i < open; i++) { tick(); start_ev("HT_CallstackIntEvent", u64s(i), "", -1); ht_feature_callstack_start_int(g_t, i); }
        ht_timeline_destroy(g_t);
        emit(J("Flushed")); emit(J("Gone"));
    };
    // one thread after another, each with a timeline of its own
    for (int n = chance(12) ? 2 : 1; n > 0; n--) {
        if (rnd(3) == 0) { int k = rnd(3); for (int i = 0; i < k; i++) std::thread([] { ht_thread_get_current_thread_id(); }).join(); std::thread(work).join(); } else work();
    }
    ht_deinit();
}
int main(int argc, char** argv) { Args a(argc, argv); seq::run(a, true, [](uint64_t) { one(); }); }
