// Random single-threaded histories of the core API (timelines, listener groups,
// features, classes, initialisation), recorded with every callback they cause.
#include "seq.hpp"
#include "events.h"
#include <hawktracer.h>
#include <hawktracer/registry.h>
#include <map>
#include <memory>
#include <set>
#include <fstream>
#include <sstream>
using namespace seq;

static long g_blocks;                       // outstanding blocks of the user allocator
static std::set<void*> g_live;
static void* my_realloc(void* p, size_t n, void*) {
    if (p) { if (!g_live.erase(p)) { emit(J("BadFree")); _exit(97); } g_blocks--; }
    if (n == 0) { if (p) { free(p); return nullptr; } n = 1; }
    void* r = realloc(p, n);
    g_live.insert(r); g_blocks++;
    return r;
}

static int g_cur = 0;                       // timeline of the running call
struct L { int id; };
static std::vector<std::unique_ptr<L>> g_ls;
static void on_events(TEventPtr e, size_t n, HT_Boolean ser, void* ud) { emit(J("Dlv").i("l", ((L*)ud)->id).i("t", g_cur).b("ser", ser).t("b", hex(e, n))); }
static void on_destroy(void* ud) { emit(J("LGone").i("l", ((L*)ud)->id)); }

struct Feat { HT_Feature base; int id; };
static std::map<HT_Feature*, int> g_fid;
static void feat_destroy(HT_Feature* f) { emit(J("FGone").i("i", ((Feat*)f)->id)); g_fid.erase(f); ht_free(f); }
static HT_FeatureKlass g_fk[40];
static HT_EventKlass g_ek[60]; static MKCREFLECT_TypeInfo g_ti[60]; static std::string g_names[60];

// structures of any size (only handed over unserialised)
static const size_t RAW[] = {40, 72, 127, 128, 129, 136, 200, 256, 264, 520, 3000};
static HT_EventKlass g_rk[11]; static MKCREFLECT_TypeInfo g_ri[11];
struct T { HT_Timeline* p; bool ser; size_t cap, fill; };      // fill: a guess that steers the choice of sizes, not an oracle
static bool g_huge;                         // a history with deliveries of hundreds of kilobytes
static bool g_big;                          // a history with many groups, listeners or classes
static std::map<int, T> g_tl;
static int g_tn, g_ln, g_fn, g_en;

static bool g_macros;                       // events are also made and pushed by the library's macros
static void push(int t);
// An event put together and pushed by a macro; what it is is told while the macro puts it together.
static void push_macro(int t) {
    T& x = g_tl[t];
    HT_EventId before = ht_event_id_provider_next(ht_timeline_get_id_provider(x.p)); HT_TimestampNs t0 = ht_monotonic_clock_get_timestamp();
    bool stamped = true; HT_EventId id = 0;
    auto tell = [&](const HT_Event& b, HT_Event* mine, HT_EventKlass* k) -> const HT_Event& {
        stamped = b.klass == k && b.id > before && b.timestamp >= t0 && b.timestamp <= ht_monotonic_clock_get_timestamp();
        mine->klass = k; mine->id = id = b.id; mine->timestamp = b.timestamp;
        std::string y;
        if (x.ser) { y.resize(k->get_size(mine)); k->serialize(mine, (HT_Byte*)&y[0]); } else y.assign((const char*)mine, k->type_info->size);
        x.fill = x.fill + y.size() <= x.cap ? x.fill + y.size() : y.size() > x.cap ? 0 : y.size();
        emit(J("Push").i("t", t).t("b", hex(y)));
        g_cur = t;
        return b;
    };
    std::string s1(rnd(4) ? rnd(12) : rnd(300), 'a' + rnd(26)), s2(rnd(8), 'A' + rnd(26));
    uint64_t r[16]; for (auto& w : r) w = rnd();
    switch (rnd(x.ser ? 7 : 3)) {           // structures with gaps only where the gaps do not show
        case 0: { HT_Event e; HT_TIMELINE_PUSH_EVENT_PEDANTIC(x.p, HT_Event, tell(ht_base_event, &e, HT_EVENT_KLASS_GET(HT_Event))); break; }
        case 1: { VBig e = {{}, r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7], r[8], r[9], r[10], r[11], r[12], r[13], r[14], r[15]};
            HT_TIMELINE_PUSH_EVENT(x.p, VBig, (tell(ht_base_event, &e.base, HT_EVENT_KLASS_GET(VBig)), e.f1), e.f2, e.f3, e.f4, e.f5, e.f6, e.f7, e.f8, e.f9, e.f10, e.f11, e.f12, e.f13, e.f14, e.f15, e.f16); break; }
        case 2: { HT_Event e; HT_DECL_EVENT(HT_Event, ev); ht_timeline_init_event(x.p, &ev); tell(ev, &e, HT_EVENT_KLASS_GET(HT_Event)); ht_timeline_push_event(x.p, &ev); break; }
        case 3: { VStr e = {{}, chance(10) ? nullptr : s1.c_str(), (uint32_t)r[0], s2.c_str()};
            HT_TIMELINE_PUSH_EVENT(x.p, VStr, (tell(ht_base_event, &e.base, HT_EVENT_KLASS_GET(VStr)), e.s1), e.mid, e.s2); break; }
        case 4: { VInts e = {{}, (uint8_t)r[0], (int8_t)r[1], (uint16_t)r[2], (int16_t)r[3], (uint32_t)r[4], (int32_t)r[5], r[6], (int64_t)r[7]};
            HT_TIMELINE_PUSH_EVENT_PEDANTIC(x.p, VInts, tell(ht_base_event, &e.base, HT_EVENT_KLASS_GET(VInts)), e.u8, e.i8, e.u16, e.i16, e.u32, e.i32, e.u64, e.i64); break; }
        case 5: { VDeep e; memset(&e, 0, sizeof e); e.base.base.duration = r[0]; e.base.base.thread_id = r[1]; e.base.code = (uint16_t)r[2]; e.base.label = s1.c_str(); e.extra = (int64_t)r[3]; e.ptr = &e; e.note = s2.c_str();
            HT_TIMELINE_PUSH_EVENT_PEDANTIC(x.p, VDeep, {{tell(ht_base_event, &e.base.base.base, HT_EVENT_KLASS_GET(VDeep)), e.base.base.duration, e.base.base.thread_id}, e.base.code, e.base.label}, e.extra, e.ptr, e.note); break; }
        default: { HT_DECL_EVENT(VStr, ev); VStr e; memset(&e, 0, sizeof e); ht_timeline_init_event(x.p, HT_EVENT(&ev)); ev.s1 = e.s1 = s1.c_str(); ev.s2 = e.s2 = s2.c_str(); ev.mid = e.mid = (uint32_t)r[0];
            tell(ev.base, &e.base, HT_EVENT_KLASS_GET(VStr)); ht_timeline_push_event(x.p, HT_EVENT(&ev)); break; }
    }
    g_cur = 0;
    emit(J("Ret"));
    emit(J("Stamp").b("ok", stamped && ht_event_id_provider_next(ht_timeline_get_id_provider(x.p)) > id));
}
static void push(int t) {
    if (g_macros && chance(12)) { push_macro(t); return; }
    T& x = g_tl[t];
    VInts vi; VStr vs; VDeep vd; VBig vb; HT_Event e0; HT_CallstackStringEvent cs;
    memset(&vi, 0, sizeof vi); memset(&vs, 0, sizeof vs); memset(&vd, 0, sizeof vd); memset(&vb, 0, sizeof vb); memset(&e0, 0, sizeof e0); memset(&cs, 0, sizeof cs);
    std::string s1(rnd(4) ? rnd(12) : rnd(300), 'a' + rnd(26)), s2(rnd(8), 'A' + rnd(26));
    if (g_huge && chance(60)) s1 = std::string(15000 + rnd(60000), 'a' + rnd(26));
    HT_Event* ev;
    int kind = rnd(6);
    if (x.ser && chance(40)) {              // fill the buffer to the byte, or just not
        kind = 1 + 3 * rnd(2);
        if (kind == 1) vs.base.klass = HT_EVENT_KLASS_GET(VStr); else cs.base.base.klass = HT_EVENT_KLASS_GET(HT_CallstackStringEvent);
        vs.s1 = vs.s2 = cs.label = "";
        s2 = "";
        long least = kind == 1 ? vs.base.klass->get_size((HT_Event*)&vs) : cs.base.base.klass->get_size((HT_Event*)&cs);
        long want = (long)(chance(70) ? x.cap - x.fill : x.cap) + (long)rnd(3) - 1 - least;
        if (want >= 0 && (want < 600 || (want < 12000 && chance(6)))) s1 = std::string(want, 'a' + rnd(26));
    }
    static std::vector<uint64_t> raw(400);
    if (!x.ser && chance(45)) kind = 10;
    switch (kind) {
        case 10: { int k = rnd(chance(80) ? 10 : 11); for (auto& w : raw) w = rnd(); ev = (HT_Event*)raw.data(); ev->klass = &g_rk[k]; break; }
        case 0: vi.base.klass = HT_EVENT_KLASS_GET(VInts); vi.u64 = rnd(); vi.i8 = rnd(); ev = (HT_Event*)&vi; break;
        case 1: vs.base.klass = HT_EVENT_KLASS_GET(VStr); vs.s1 = s1.c_str(); vs.s2 = chance(10) ? nullptr : s2.c_str(); vs.mid = rnd(); ev = (HT_Event*)&vs; break;
        case 2: vd.base.base.base.klass = HT_EVENT_KLASS_GET(VDeep); vd.base.label = s1.c_str(); vd.note = s2.c_str(); vd.extra = rnd(); ev = (HT_Event*)&vd; break;
        case 3: vb.base.klass = HT_EVENT_KLASS_GET(VBig); vb.f1 = rnd(); vb.f16 = rnd(); ev = (HT_Event*)&vb; break;
        case 4: cs.base.base.klass = HT_EVENT_KLASS_GET(HT_CallstackStringEvent); cs.label = s1.c_str(); ev = (HT_Event*)&cs; break;
        default: e0.klass = HT_EVENT_KLASS_GET(HT_Event); ev = &e0; break;
    }
    ev->id = ++g_en; ev->timestamp = rnd();
    std::string b;
    if (x.ser) { b.resize(ev->klass->get_size(ev)); ev->klass->serialize(ev, (HT_Byte*)&b[0]); }
    else b.assign((const char*)ev, ev->klass->type_info->size);
    x.fill = x.fill + b.size() <= x.cap ? x.fill + b.size() : b.size() > x.cap ? 0 : b.size();
    emit(J("Push").i("t", t).t("b", hex(b)));
    g_cur = t; ht_timeline_push_event(x.p, ev); g_cur = 0;
    emit(J("Ret"));
}

static int any_tl() { if (g_tl.empty()) return 0; auto it = g_tl.begin(); std::advance(it, rnd(g_tl.size())); return it->first; }

static const char* NAMES[] = {"", "", "alpha", "beta", "Ab", "HT_GlobalTimeline", "HT_Group", "Alpha", "alpha ", "bAlpha"};

static void create(const std::string& mode, bool named_ok, const char* fixed = nullptr) {
    int t = ++g_tn;
    static const size_t caps[] = {1, 20, 21, 45, 64, 128, 129, 200, 1024, 10000};
    static const size_t sizes[] = {sizeof(HT_Event), sizeof(VInts), sizeof(VStr), sizeof(VDeep), sizeof(VBig), sizeof(HT_CallstackStringEvent), 40, 72, 127, 128, 129, 136, 200, 256, 264, 520};
    size_t cap = rnd(3) ? caps[rnd(10)] : 1 + rnd(260);
    bool ser = rnd(3) != 0, ts = rnd(2);
    if (!ser && chance(60)) { cap = 0; for (int n = 1 + rnd(3); n; n--) cap += sizes[rnd(16)]; int d = rnd(4); cap = d == 0 ? cap + sizes[rnd(16)] / 2 : cap + d - 2; }
    if (g_huge) { ser = chance(85); cap = 60000 + rnd(200000); }
    std::string name = mode == "deliver" ? NAMES[rnd(3)] : NAMES[rnd(10)];
    if (g_big && mode != "deliver") {
        static const unsigned lens[] = {0, 3, 14, 15, 16, 30, 31, 32, 62, 63, 64, 127, 128, 255, 256, 300};
        name = chance(50) ? "n" + std::to_string(rnd(90)) : std::string(lens[rnd(16)], 'x') + std::to_string(rnd(3));
    }
    if (!named_ok) name = "";
    if (fixed) name = fixed;
    emit(J("Create").i("t", t).t("name", name).b("ser", ser));
    // the caller's name buffer does not outlive the call
    std::unique_ptr<char[]> nm(new char[name.size() + 1]); strcpy(nm.get(), name.c_str());
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    HT_Timeline* p = ht_timeline_create(cap, ts, ser, name.empty() ? nullptr : nm.get(), chance(20) ? nullptr : &err);
    nm.reset();
    emit(J("Ret").b("ok", p != nullptr));
    if (p) g_tl[t] = T{p, ser, cap, 0};
}
static void reg(int t, int fixed = -1) {
    g_ls.emplace_back(new L{++g_ln});
    bool cb = fixed < 0 ? chance(75) : fixed;
    emit(J("Reg").i("t", t).i("l", g_ln).b("cb", cb));
    g_cur = t;
    HT_ErrorCode r = cb ? ht_timeline_register_listener_full(g_tl[t].p, on_events, g_ls.back().get(), on_destroy) : ht_timeline_register_listener(g_tl[t].p, on_events, g_ls.back().get());
    g_cur = 0;
    emit(J("Ret").b("ok", r == HT_ERR_OK));
}
static void flush(int t) { emit(J("Flush").i("t", t)); g_cur = t; ht_timeline_flush(g_tl[t].p); g_tl[t].fill = 0; g_cur = 0; emit(J("Ret")); }
static void destroy(int t) {
    emit(J("Destroy").i("t", t));
    g_cur = t; ht_timeline_destroy(g_tl[t].p); g_cur = 0; g_tl.erase(t);
    emit(J("Ret"));
}
static void init(int& up) {
    up++;
    emit(J("Init"));
    ht_init(0, nullptr);
    size_t n = 0; ht_registry_get_event_klasses(&n);
    emit(J("Ret").i("classes", n));
    if (up == 1) { HT_REGISTER_EVENT_KLASS(VInts); HT_REGISTER_EVENT_KLASS(VStr); HT_REGISTER_EVENT_KLASS(VBase); HT_REGISTER_EVENT_KLASS(VDeep); HT_REGISTER_EVENT_KLASS(VNest); HT_REGISTER_EVENT_KLASS(VBig);
      for (int k = 0; k < 6; k++) { HT_EventKlass* kk[] = {HT_EVENT_KLASS_GET(VInts), HT_EVENT_KLASS_GET(VStr), HT_EVENT_KLASS_GET(VBase), HT_EVENT_KLASS_GET(VDeep), HT_EVENT_KLASS_GET(VNest), HT_EVENT_KLASS_GET(VBig)};
        emit(J("RegK").i("k", 1000 + k).i("id", kk[k]->klass_id)); } }
}
static void deinit(int& up) { emit(J("Deinit")); ht_deinit(); if (up > 0) up--; emit(J("Ret")); }
static void status(int up) {
    size_t n = 0; if (up > 0) ht_registry_get_event_klasses(&n);
    emit(J("Status").b("up", ht_is_initialized()).i("classes", n));
}
static void regk(int k) {
    g_ti[k].name = g_names[k].c_str(); g_ti[k].fields_count = 0; g_ti[k].size = sizeof(HT_Event); g_ti[k].fields = nullptr;
    g_ek[k].type_info = &g_ti[k];
    emit(J("RegK").i("k", k).i("id", (int)ht_registry_register_event_klass(&g_ek[k])));
}
static void regf(int c) {
    HT_ErrorCode r = ht_registry_register_feature(&g_fk[c]);
    emit(J("RegF").i("c", c).b("ok", r == HT_ERR_OK).i("id", g_fk[c].id == HT_INVALID_FEATURE_ID ? -1 : (int)g_fk[c].id));
}
static void enf(int t, int c) {
    int i = ++g_fn;
    emit(J("EnF").i("t", t).i("c", c).i("i", i));
    bool ok;
    if (c == 100) ok = ht_feature_callstack_enable(g_tl[t].p) == HT_ERR_OK;
    else if (c == 101) ok = ht_feature_cached_string_enable(g_tl[t].p, rnd(2)) == HT_ERR_OK;
    else { Feat* f = (Feat*)ht_alloc(sizeof(Feat)); f->base.klass = &g_fk[c]; f->id = i; g_fid[&f->base] = i; ok = ht_timeline_set_feature(g_tl[t].p, &f->base) == HT_ERR_OK; }
    emit(J("Ret").b("ok", ok));
}
static void getf(int t, int c) {
    HT_Feature* f = ht_timeline_get_feature(g_tl[t].p, &g_fk[c]);
    emit(J("GetF").i("t", t).i("c", c).i("i", !f ? 0 : g_fid.count(f) ? g_fid[f] : -1));
}

static void script(const std::string& line, int& up) {
    std::stringstream ss(line); std::string op;
    while (std::getline(ss, op, ';')) {
        std::stringstream o(op); std::string k, w; int x = 0, y = 0; o >> k;
        if (k == "create") o >> w; else o >> x >> y;
        if (k == "init") init(up);
        else if (k == "deinit") deinit(up);
        else if (k == "create") create("", true, w == "-" ? "" : w.c_str());
        else if (k == "reg") reg(x, y);
        else if (k == "push") push(x);
        else if (k == "Flush") flush(x);
        else if (k == "Unreg") { emit(J("Unreg").i("t", x)); g_cur = x; ht_timeline_unregister_all_listeners(g_tl[x].p); g_cur = 0; emit(J("Ret")); }
        else if (k == "Destroy") destroy(x);
        else if (k == "regk") regk(x);
        else if (k == "regf") { if (up) regf(x); }
        else if (k == "enf") enf(x, y);
        else if (k == "getf") getf(x, y);
    }
}
static void random_history(const std::string& mode, int& up) {
    int steps = mode == "deliver" ? 20 + rnd(60) : 20 + rnd(80);
    g_huge = mode == "deliver" && chance(3);
    if (g_huge) steps = 14;
    if (mode == "deliver") { int n = 1 + rnd(2); for (int i = 0; i < n; i++) { create(mode, true); int m = rnd(3) + g_huge; for (int j = 0; j < m; j++) reg(any_tl()); } }
    bool many = mode == "feat" && chance(25);
    g_big = chance(mode == "groups" ? 12 : 4);
    if (g_big && mode == "deliver") { int t = any_tl(); for (int n = rnd(150); n; n--) reg(t); steps = 15; }
    if (g_big && mode != "deliver" && mode != "feat") { for (int n = 20 + rnd(80); n; n--) create(mode, true); steps = 40 + rnd(60); }
    if (g_big && mode == "init") for (int n = rnd(300); n; n--) init(up);
    for (int s = 0; s < steps; s++) {
        int t = any_tl(); unsigned r = rnd(100);
        if (mode == "deliver") {
            if (!t) { create(mode, true); continue; }
            if (r < 66) push(t);
            else if (r < 80) flush(t);
            else if (r < 90) { int m = chance(8) ? 20 : 1; while (m--) reg(t); }
            else if (r < 93) { emit(J("Unreg").i("t", t)); g_cur = t; ht_timeline_unregister_all_listeners(g_tl[t].p); g_cur = 0; emit(J("Ret")); }
            else if (r < 97) destroy(t);
            else if (g_tl.size() < 4) create(mode, true);
        } else if (mode == "groups") {
            if (r < 22 || !t) { if (g_tl.size() < (g_big ? 120u : 8u)) create(mode, up > 0); }
            else if (r < 50) push(t);
            else if (r < 60) flush(t);
            else if (r < 76) reg(t);
            else if (r < 80) { emit(J("Unreg").i("t", t)); g_cur = t; ht_timeline_unregister_all_listeners(g_tl[t].p); g_cur = 0; emit(J("Ret")); }
            else if (r < 95) destroy(t);
            else if (r < 98) { if (up) deinit(up); }
            else { if (!up) init(up); }
        } else if (mode == "init") {
            if (r < 20) init(up);
            else if (r < 42) { deinit(up); if (!up && g_tl.empty()) emit(J("Mem").i("blocks", g_blocks)); }
            else if (r < 50) status(up);
            else if (r < 62) { if (up) regk(rnd(60)); }
            else if (r < 72) { if (up && g_tl.size() < 4) create(mode, true); }
            else if (r < 80) { if (t) reg(t); }
            else if (r < 90) { if (t) push(t); }
            else if (r < 94) { if (t) destroy(t); if (!up && g_tl.empty()) emit(J("Mem").i("blocks", g_blocks)); }
            else if (up) { regf(rnd(40)); if (t) enf(t, rnd(3) ? 100 + rnd(2) : rnd(40)); }
        } else { // feat
            if (!t || (r < 8 && g_tl.size() < 4)) create(mode, true);
            else if (r < 35) { if (many) { for (int k = 0; k < 6; k++) regf(rnd(40)); } else regf(rnd(12)); }
            else if (r < 65) enf(t, rnd(8) == 0 ? 100 + rnd(2) : rnd(many ? 40 : 14));
            else if (r < 90) getf(t, rnd(many ? 40 : 14));
            else if (r < 96) destroy(t);
            else push(t);
        }
    }
}
static std::vector<std::string> g_scripts;
static void one(const std::string& mode, uint64_t n) {
    g_tl.clear(); g_ls.clear(); g_tn = g_ln = g_fn = g_en = 0; g_fid.clear();
    for (auto& f : g_fk) { f.destroy = feat_destroy; f.id = HT_INVALID_FEATURE_ID; }
    for (int k = 0; k < 60; k++) { g_names[k] = "K" + std::to_string(k); g_ek[k].klass_id = HT_INVALID_KLASS_ID; g_ek[k].serialize = ht_HT_Event_fnc_serialize; g_ek[k].get_size = ht_HT_Event_get_size; }
    for (int k = 0; k < 11; k++) { g_ri[k].name = "Raw"; g_ri[k].fields_count = 0; g_ri[k].size = RAW[k]; g_ri[k].fields = nullptr; g_rk[k].type_info = &g_ri[k]; g_rk[k].klass_id = 0; g_rk[k].serialize = ht_HT_Event_fnc_serialize; g_rk[k].get_size = ht_HT_Event_get_size; }
    ht_allocator_set(my_realloc, nullptr);
    int up = 0; g_macros = mode == "deliver";
    if (!g_scripts.empty()) script(g_scripts[n % g_scripts.size()], up);
    else { init(up); random_history(mode, up); }
    while (!g_tl.empty()) destroy(g_tl.begin()->first);
    while (up) deinit(up);
    emit(J("Mem").i("blocks", g_blocks));
    emit(J("End"));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    if (!a.script.empty()) { std::ifstream f(a.script); std::string x; while (std::getline(f, x)) g_scripts.push_back(x); }
    seq::run(a, true, [&](uint64_t n) { one(a.mode, n); });
}
