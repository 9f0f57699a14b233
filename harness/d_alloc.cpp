// Random use of the core library with a user allocator that fails where it is
// told to; every call reports what it did to the memory and what it returned.
#include "seq.hpp"
#include "klasses.hpp"
#include <hawktracer.h>
#include <hawktracer/alloc.h>
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/global_timeline.h>
#include <hawktracer/task_scheduler.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/listeners/file_dump_listener.h>
#include <hawktracer/listeners/tcp_listener.h>
extern "C" {
#include "internal/registry.h"
#include "internal/timeline_listener_container.h"
}
#include "internal/listeners/tcp_server.h"
#include <sys/socket.h>
#include <sys/stat.h>
#include <dirent.h>
#include <thread>
#include <atomic>
#include <mutex>
#include <memory>
#include <map>
using namespace seq;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
// ---- the user's allocator
static std::mutex g_m; static long g_live, g_bad, g_fail, g_asked; static std::atomic<long> g_foreign{0};
static int g_plan; static uint64_t g_k, g_pct; static bool g_shrink; static char g_ud;
static thread_local bool t_call, t_alloc;
struct Head { uint64_t magic, size, pad[2]; };
static const uint64_t MAGIC = 0x5ca1ab1e0ddba11ull;
static bool refuse() {   // one more block wanted
    g_asked++;
    if (g_plan == 1) return (uint64_t)g_asked == g_k;
    if (g_plan == 2) return rnd(100) < g_pct;
    if (g_plan == 3) return (uint64_t)g_asked >= g_k;
    return false;
}
static void* user_realloc(void* p, size_t n, void* ud) {
    std::lock_guard<std::mutex> g(g_m); t_alloc = true; void* r = nullptr;
    if (ud != &g_ud) g_bad++;
    Head* h = p ? (Head*)p - 1 : nullptr;
    if (h && h->magic != MAGIC) { g_bad++; }
    else if (n == 0) { if (h) { h->magic = 0; ::free(h); g_live--; } else g_bad++; }
    else if (!h) { if (refuse()) g_fail++; else { Head* x = (Head*)::malloc(n + sizeof(Head)); x->magic = MAGIC; x->size = n; memset(x + 1, 0xbb, n); g_live++; r = x + 1; } }
    else { bool grow = n > h->size; if (grow ? refuse() : g_shrink) { if (grow) g_fail++; }
        else { Head* x = (Head*)::malloc(n + sizeof(Head)); x->magic = MAGIC; x->size = n; memset(x + 1, 0xbb, n); memcpy(x + 1, p, std::min((size_t)h->size, n)); h->magic = 0; ::free(h); r = x + 1; } }
    t_alloc = false; return r;
}
static void on_malloc(const volatile void*, size_t) { if (t_call && !t_alloc) g_foreign++; }
static void on_free(const volatile void*) {}
static int fds() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
static long m_live, m_fail, m_for, m_bad; static int m_fds;
static void plan(bool faults, uint64_t maxk) {
    g_plan = 0; g_shrink = false; g_asked = 0;
    if (faults && chance(45)) { int r = rnd(10); g_plan = r < 6 ? 1 : r < 8 ? 2 : 3;
        if (maxk > 64) { g_k = chance(50) ? 1 + rnd(1u << rnd(12)) : 1 + rnd(maxk); if (chance(10)) g_k = maxk - rnd(6); } else g_k = 1 + rnd(maxk);
        g_pct = 10 + rnd(60); }
    if (faults && chance(30)) g_shrink = true;
}
struct Call { Call(bool faults, uint64_t maxk, bool look = false) : look(look) { plan(faults, maxk); m_live = g_live; m_fail = g_fail; m_for = g_foreign; m_bad = g_bad; if (look) m_fds = fds(); t_call = true; } bool look;
    int df = 0; long db = 0, fail = 0, fore = 0, bad = 0, live = 0;
    void end() { t_call = false; g_plan = 0; g_shrink = false; db = g_live - m_live; fail = g_fail - m_fail; fore = g_foreign - m_for; bad = g_bad - m_bad; live = g_live; if (look) df = fds() - m_fds; }
    J j(const char* e) { J x(e); x.i("db", db).i("df", df).i("fail", fail).i("foreign", fore).i("bad", bad).i("live", live); return x; } };
// ---- listeners
struct Lis { std::string id, kind; size_t bytes = 0; uint64_t label = 0; bool ser_seen = false; HT_FileDumpListener* file = nullptr; std::string path; off_t size = 0; };
static std::vector<std::string> g_destroyed;
static void on_events(TEventPtr e, size_t n, HT_Boolean ser, void* ud) {
    bool c = t_call; t_call = false; Lis* x = (Lis*)ud; x->bytes += n;
    if (ser) { if (n >= 40) memcpy(&x->label, e + n - 8, 8); } else { HT_Event* v = (HT_Event*)e; if (v->klass->klass_id == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) x->label = ((HT_CallstackIntEvent*)v)->label; }
    t_call = c;
}
static void on_destroy(void* ud) { bool c = t_call; t_call = false; g_destroyed.push_back(((Lis*)ud)->id); t_call = c; }
struct Tl { std::string id, name; HT_Timeline* t; bool ser; bool call = false, cache = false; int open = 0; };
struct Task { HT_TaskId id; bool keep; };
static std::vector<HT_TaskId> g_ran; struct TU { HT_TaskId id; bool keep; };
static HT_Boolean on_task(void* ud) { bool c = t_call; t_call = false; TU* x = (TU*)ud; g_ran.push_back(x->id); t_call = c; return x->keep ? HT_TRUE : HT_FALSE; }
static HT_Boolean on_client(int, void*) { return HT_FALSE; }
static std::string dir() { const char* s = getenv("SCRATCH"); return s ? s : "/tmp"; }
struct World {
    std::map<std::string, std::vector<std::unique_ptr<Lis>>> lis; std::vector<Tl> tl; std::vector<std::unique_ptr<kl::Dyn>>* kl;
    struct Obj { std::string id; int kind; void* p; bool started = false; std::vector<std::pair<int, int>> cl; std::vector<std::unique_ptr<TU>> tu; std::vector<HT_TaskId> ids; }; std::vector<std::unique_ptr<Obj>> ob;
    int n = 0, nk = 0; bool faults = true;
    std::string fresh(const char* p) { return p + std::to_string(++n); }
    std::string g(const Tl& t) { return t.name.empty() ? t.id : "g:" + t.name; }
    static std::string ids(std::vector<std::string>& v) { std::string r = "["; for (auto& x : v) r += (r.size() > 1 ? ",\"" : "\"") + x + "\""; v.clear(); return r + "]"; }
    void mark(const Tl& t) { for (auto& l : lis[g(t)]) { l->bytes = 0; l->label = 0; } }
    // bytes every listener of the group got since mark()
    std::string got(const Tl& t) {
        std::string r = "[";
        for (auto& l : lis[g(t)]) { long long b = l->bytes;
            if (l->kind == "file") { ht_file_dump_listener_flush(l->file, HT_TRUE); struct stat s; stat(l->path.c_str(), &s); b = s.st_size - l->size; l->size = s.st_size; }
            r += std::string(r.size() > 1 ? "," : "") + "{\"l\":\"" + l->id + "\",\"n\":" + std::to_string(b) + "}"; }
        return r + "]";
    }
    uint64_t seen(const Tl& t) { for (auto& l : lis[g(t)]) if (l->kind != "file" && l->kind != "tcp") return l->label; return 0; }
    Tl* any() { return tl.empty() ? nullptr : &tl[rnd(tl.size())]; }
    void create() {
        if (tl.size() >= 6) return; std::string id = fresh("t"), name = chance(45) ? "n" + std::to_string(rnd(12)) : ""; bool ts = chance(50), ser = chance(70); size_t cap = chance(40) ? 1 + rnd(60) : 60 + rnd(4000);
        HT_ErrorCode err = (HT_ErrorCode)77; bool we = chance(80); Call c(faults, 9, true); HT_Timeline* t = ht_timeline_create(cap, ts, ser, name.empty() ? nullptr : name.c_str(), we ? &err : nullptr); c.end();
        if (we && (t != nullptr) != (err == HT_ERR_OK)) c.bad++;
        emit(c.j("Create").t("t", id).t("name", name).b("ser", ser).b("ok", t != nullptr)); if (t) tl.push_back(Tl{id, name, t, ser});
    }
    void destroy(size_t i) {
        if (chance(60)) while (tl[i].open > 0) stop(tl[i]);
        Tl t = tl[i]; tl.erase(tl.begin() + i); Call c(false, 1, true); g_shrink = faults && chance(30); ht_timeline_destroy(t.t); c.end();
        emit(c.j("Destroy").t("t", t.id).raw("destroyed", ids(g_destroyed))); if (t.name.empty()) { for (auto& l : lis[t.id]) if (!l->path.empty()) ::unlink(l->path.c_str()); lis.erase(t.id); }
    }
    void reg() {
        Tl* t = any(); if (!t) return; auto& v = lis[g(*t)]; int reps = chance(25) ? 1 + rnd(20) : 1; if (v.size() > 40) return;
        while (reps-- > 0) {
            std::unique_ptr<Lis> l(new Lis); l->id = fresh("l"); int k = rnd(100); bool ok, possible = true; l->kind = k < 45 ? "plain" : k < 75 ? "full" : k < 94 ? "file" : "tcp"; if (reps && k >= 75) l->kind = "plain";
            HT_ErrorCode err = (HT_ErrorCode)77; Call* c;
            if (l->kind == "plain") { c = new Call(faults, 2, true); err = ht_timeline_register_listener(t->t, on_events, l.get()); c->end(); ok = err == HT_ERR_OK; }
            else if (l->kind == "full") { c = new Call(faults, 2, true); err = ht_timeline_register_listener_full(t->t, on_events, l.get(), on_destroy); c->end(); ok = err == HT_ERR_OK; }
            else if (l->kind == "file") { possible = !chance(10); l->path = dir() + (possible ? "/a" : "/none/a") + std::to_string(getpid()) + l->id; size_t bs = chance(20) ? 0 : 1 + rnd(300);
                c = new Call(faults, 5, true); l->file = ht_file_dump_listener_register(t->t, l->path.c_str(), bs, &err); c->end(); ok = l->file != nullptr; if (ok) { ht_file_dump_listener_flush(l->file, HT_TRUE); struct stat s; stat(l->path.c_str(), &s); l->size = s.st_size; } else ::unlink(l->path.c_str()); if (ok != (err == HT_ERR_OK)) c->bad++; }
            else { c = new Call(faults, 9, true); HT_TCPListener* p = ht_tcp_listener_register(t->t, 0, chance(20) ? 0 : 1 + rnd(300), &err); c->end(); ok = p != nullptr; if (ok != (err == HT_ERR_OK)) c->bad++; }
            emit(c->j("Register").t("t", t->id).t("i", l->id).t("kind", l->kind).b("possible", possible).i("wide", wide).b("ok", ok)); delete c; if (ok) v.push_back(std::move(l)); else graveyard.push_back(std::move(l));
        }
    }
    std::vector<std::unique_ptr<Lis>> graveyard;
    void unreg() { Tl* t = any(); if (!t) return; Call c(false, 1, true); g_shrink = faults && chance(50); ht_timeline_unregister_all_listeners(t->t); c.end(); emit(c.j("Unregister").t("t", t->id).raw("destroyed", ids(g_destroyed)));
        for (auto& l : lis[g(*t)]) { if (!l->path.empty()) ::unlink(l->path.c_str()); graveyard.push_back(std::move(l)); } lis[g(*t)].clear(); }
    void enable() { Tl* t = any(); if (!t) return; bool ca = chance(50); bool& have = ca ? t->cache : t->call; Call c(faults, ca ? 2051 : 4, true);
        HT_ErrorCode e = ca ? ht_feature_cached_string_enable(t->t, chance(50)) : ht_feature_callstack_enable(t->t); c.end(); if (e == HT_ERR_OK) have = true;
        emit(c.j("Enable").t("t", t->id).t("feat", ca ? "cached" : "callstack").b("ok", e == HT_ERR_OK)); }
    void push() { Tl* t = any(); if (!t) return; std::string s(chance(60) ? rnd(60) : rnd(500), 'x'); size_t ss, us; mark(*t); HT_DECL_EVENT(HT_StringMappingEvent, e); e.identifier = 7; e.label = s.c_str(); HT_DECL_EVENT(HT_Event, b);
        bool str = chance(70); HT_Event* v = str ? (HT_Event*)&e : (HT_Event*)&b; ht_timeline_init_event(t->t, v); ss = v->klass->get_size(v); us = v->klass->type_info->size;
        Call c(faults, 3); ht_timeline_push_event(t->t, v); ht_timeline_flush(t->t); c.end(); emit(c.j("Push").i("ss", ss).i("us", us).t("t", t->id).raw("got", got(*t))); }
    // texts that likely meet in one place of a hash table, so that it has to grow there
    static std::string crowded(int i) { for (unsigned k = i * 1000000u;; k++) { std::string s = "lab" + std::to_string(k); uint64_t h = 5381; for (char c : s) h = h * 33 + (unsigned char)c; if (h % 1024 == 77) return s; } }
    void label() { for (int k = chance(25) ? 2 + rnd(60) : 1; k > 0; k--) label1(); }
    void label1() {
        Tl* t = nullptr; for (int i = 0; i < 4 && (!t || !t->cache); i++) t = any(); if (!t || !t->cache) return;
        static std::vector<std::string> pool; static std::vector<char*> fixed; if (pool.empty()) for (int i = 0; i < 40; i++) { pool.push_back(i % 2 ? crowded(i) : "lab" + std::string(i % 7 == 0 ? 200 : i % 5, 'z') + std::to_string(i)); } if (fixed.empty()) { char* a = (char*)aligned_alloc(4096, 40 * 512); for (int i = 0; i < 40; i++) { memcpy(a + i * 512, pool[i].c_str(), pool[i].size() + 1); fixed.push_back(a + i * 512); } }
        bool dyn = chance(50); int i = rnd(40); mark(*t); HT_DECL_EVENT(HT_StringMappingEvent, e); e.identifier = 0; e.label = fixed[i]; HT_Event* v = (HT_Event*)&e; size_t ss = v->klass->get_size(v), us = v->klass->type_info->size;
        Call c(faults, 4); uintptr_t r = dyn ? ht_feature_cached_string_add_mapping_dynamic(t->t, pool[i].c_str()) : ht_feature_cached_string_add_mapping(t->t, fixed[i]); c.end(); ht_timeline_flush(t->t);
        emit(c.j("Label").t("t", t->id).t("x", (dyn ? "d" : "s") + std::to_string(i)).b("ok", r != 0).i("ss", ss).i("us", us).raw("got", got(*t)));
    }
    void scopes() {
        Tl* t = nullptr; for (int i = 0; i < 4 && (!t || !t->call); i++) t = any(); if (!t || !t->call) return;
        int up = chance(50) ? 95 : chance(50) ? 10 : 60; for (int k = chance(45) ? 5 + rnd(60) : 1 + rnd(6); k > 0; k--) {
            if (t->open < 90 && (t->open == 0 || chance(up))) { int lab = 1 + rnd(1000000); HT_DECL_EVENT(HT_CallstackIntEvent, e); HT_Event* v = (HT_Event*)&e; size_t ss = v->klass->get_size(v), us = v->klass->type_info->size;
                Call c(faults, 2); ht_feature_callstack_start_int(t->t, lab); c.end(); t->open++; emit(c.j("Start").t("t", t->id).i("label", lab).i("ss", ss).i("us", us)); }
            else stop(*t); }
    }
    void stop(Tl& t) { mark(t); Call c(faults, 2); ht_feature_callstack_stop(t.t); c.end(); ht_timeline_flush(t.t); t.open--; std::string gt = got(t); emit(c.j("Stop").t("t", t.id).i("label", seen(t)).raw("got", gt)); }
    void global() {
        bool ok = false, used = false; Call* c = nullptr;
        int d0 = fds(); std::thread th([&] { c = new Call(faults, 2060); HT_Timeline* t = ht_global_timeline_get(); ok = t != nullptr; t_call = false; g_plan = 0; g_shrink = false;
            if (t) { Lis l; auto& v = lis["g:HT_GlobalTimeline"]; for (auto& x : v) x->bytes = 0; ht_feature_callstack_start_int(t, 5); ht_feature_callstack_stop(t); used = ht_feature_cached_string_add_mapping(t, "abc") != 0; ht_timeline_flush(t); for (auto& x : v) if ((x->kind == "plain" || x->kind == "full") && x->bytes == 0) used = false; } });
        th.join(); t_call = false; c->end(); c->df = fds() - d0; emit(c->j("Global").b("ok", ok).b("used", used)); delete c;
    }
    void make() {
        if (ob.size() > 6) return; std::unique_ptr<Obj> o(new Obj); o->id = fresh("o"); o->kind = rnd(6); static const char* kn[] = {"ids", "cpu", "mem", "group", "sched", "server"}; HT_ErrorCode err = HT_ERR_OK; int pid = getpid(); bool we = chance(70);
        Call c(faults, 4, true);
        switch (o->kind) { case 0: o->p = ht_event_id_provider_create(); break; case 1: o->p = ht_cpu_usage_context_create(chance(50) ? nullptr : &pid); break; case 2: o->p = ht_memory_usage_context_create(chance(50) ? nullptr : &pid); break; case 3: o->p = ht_timeline_listener_container_create(); break; case 4: err = (HT_ErrorCode)77; o->p = ht_task_scheduler_create(we ? &err : nullptr); break; default: o->p = ht_tcp_server_create(); }
        c.end(); if (o->kind == 4 && we && (err == HT_ERR_OK) != (o->p != nullptr)) c.bad++;
        emit(c.j("New").t("o", o->id).t("kind", kn[o->kind]).b("ok", o->p != nullptr)); if (o->p) ob.push_back(std::move(o));
    }
    void drop(size_t i) {
        std::unique_ptr<Obj> o = std::move(ob[i]); ob.erase(ob.begin() + i); for (auto& x : o->cl) if (x.second >= 0) ::close(x.second);
        Call c(false, 1, true);
        switch (o->kind) { case 0: ht_event_id_provider_destroy((HT_EventIdProvider*)o->p); break; case 1: ht_cpu_usage_context_destroy((HT_CPUUsageContext*)o->p); break; case 2: ht_memory_usage_context_destroy((HT_MemoryUsageContext*)o->p); break; case 3: ht_timeline_listener_container_unref((HT_TimelineListenerContainer*)o->p); break; case 4: ht_task_scheduler_destroy((HT_TaskScheduler*)o->p); break; default: ht_tcp_server_destroy((HT_TCPServer*)o->p); }
        c.end(); emit(c.j("Free").t("o", o->id));
    }
    Obj* some(int kind) { std::vector<Obj*> v; for (auto& o : ob) if (o->kind == kind) v.push_back(o.get()); return v.empty() ? nullptr : v[rnd(v.size())]; }
    void sched() {
        Obj* o = some(4); if (!o) return; HT_TaskScheduler* s = (HT_TaskScheduler*)o->p;
        for (int k = 1 + rnd(chance(20) ? 50 : 8); k > 0; k--) { int r = rnd(100);
            if (r < 60) { std::unique_ptr<TU> u(new TU); u->keep = chance(75); HT_TaskSchedulingMode m = chance(50) ? HT_TASK_SCHEDULING_RESTART_TIMER : HT_TASK_SCHEDULING_IGNORE_DELAYS; Call c(faults, 2); u->id = ht_task_scheduler_schedule_task(s, m, 0, on_task, u.get()); c.end(); emit(c.j("Schedule").t("s", o->id).i("id", u->id).b("keep", u->keep)); if (u->id >= 0) o->ids.push_back(u->id); o->tu.push_back(std::move(u)); }
            else if (r < 80) { g_ran.clear(); Call c(false, 1); g_shrink = faults && chance(50); ht_task_scheduler_tick(s); c.end(); std::string x = "["; for (auto i : g_ran) x += (x.size() > 1 ? "," : "") + std::to_string(i); emit(c.j("Tick").t("s", o->id).raw("ran", x + "]")); }
            else { HT_TaskId id = o->ids.empty() || chance(10) ? (HT_TaskId)rnd(9) - 3 : o->ids[rnd(o->ids.size())]; Call c(false, 1); g_shrink = faults && chance(50); bool ok = ht_task_scheduler_remove_task(s, id); c.end(); emit(c.j("Remove").t("s", o->id).i("id", id).b("ok", ok)); } }
    }
    void server() {
        Obj* o = some(5); if (!o) return; HT_TCPServer* s = (HT_TCPServer*)o->p;
        if (!o->started) { Call c(faults, 2, true); bool ok = ht_tcp_server_start(s, 0, on_client, nullptr); c.end(); o->started = ok; emit(c.j("Serve").t("o", o->id).b("ok", ok)); if (!ok) return; }
        for (int k = 1 + rnd(chance(20) ? 25 : 5); k > 0; k--) { int r = rnd(100);
            if (r < 55) { int p[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, p)) return; Call c(faults, 2, true); bool ok = ht_tcp_server_add_client(s, p[0]); c.end(); int id = ++n; emit(c.j("Client").t("o", o->id).i("c", id).b("ok", ok)); if (ok) o->cl.push_back({id, p[1]}); else { close(p[0]); close(p[1]); } }
            else if (r < 75 && !o->cl.empty()) { size_t i = rnd(o->cl.size()); close(o->cl[i].second); emit(J("Leave").t("o", o->id).i("c", o->cl[i].first)); o->cl.erase(o->cl.begin() + i); }
            else { char b[200]; memset(b, 7, sizeof b); size_t len = 1 + rnd(200); Call c(false, 1, true); g_shrink = faults && chance(50); ht_tcp_server_write(s, b, len); c.end(); std::string x = "["; for (auto& q : o->cl) { char z[400]; long m = recv(q.second, z, sizeof z, MSG_DONTWAIT); x += std::string(x.size() > 1 ? "," : "") + "{\"c\":" + std::to_string(q.first) + ",\"n\":" + std::to_string(m) + "}"; } emit(c.j("Send").t("o", o->id).i("n", len).raw("got", x + "]")); } }
    }
    int wide = 0;   // descriptions of more than a page
    void klass() { for (int q = chance(20) ? 8 : 1; q > 0; q--) klass1(); }
    void klass1() { kl::C k; k.n = "K" + std::to_string(++n); if (chance(6)) k.n += std::string(4000 + rnd(300), 'k'); k.f = {kl::ev()}; if (chance(4)) k.f.push_back({"T" + std::string(chance(50) ? 4100 : 10, 't'), "f", 4, kl::IN}); kl->emplace_back(new kl::Dyn(k)); Call c(faults, 1); HT_EventKlassId id = ht_registry_register_event_klass(&kl->back()->k); c.end(); if (id != HT_INVALID_KLASS_ID) { wide += k.n.size() > 3900; for (auto& f : k.f) wide += f.t.size() > 3900; } size_t cnt; ht_registry_get_event_klasses(&cnt); emit(c.j("Class").i("id", id == HT_INVALID_KLASS_ID ? -1 : (long)id).i("count", cnt)); }
};
int main(int argc, char** argv) {
    Args a(argc, argv); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    seq::run(a, false, [&](uint64_t) {
        std::vector<std::unique_ptr<kl::Dyn>> kls; ht_allocator_set(user_realloc, &g_ud); g_live = g_bad = g_fail = 0; g_destroyed.clear();
        { Call c(false, 1, true); ht_init(0, nullptr); c.end(); size_t cnt; ht_registry_get_event_klasses(&cnt); emit(c.j("Up").i("classes", cnt)); }
        { World w; w.kl = &kls; w.faults = !chance(10); int style = rnd(4);
            for (int k = 5 + rnd(50); k > 0; k--) { int r = rnd(100); if (style == 1 && r >= 84) r = rnd(40); if (style == 2 && r < 60) r = 84 + rnd(16); if (style == 3 && chance(60)) r = chance(60) ? rnd(18) : 36 + rnd(12); if (style == 0 && r >= 76 && chance(70)) r = 48 + rnd(28); if (style == 0 && r < 12 && chance(50)) r = 38;
                if (r < 18) w.create(); else if (r < 36) w.reg(); else if (r < 38) w.unreg(); else if (r < 44) w.enable(); else if (r < 48 && !w.tl.empty()) w.destroy(rnd(w.tl.size())); else if (r < 58) w.push(); else if (r < 68) w.label(); else if (r < 76) w.scopes(); else if (r < 79) w.global(); else if (r < 84) w.klass(); else if (r < 90) w.make(); else if (r < 92 && !w.ob.empty()) w.drop(rnd(w.ob.size())); else if (r < 96) w.sched(); else w.server(); }
            while (!w.ob.empty()) w.drop(rnd(w.ob.size())); while (!w.tl.empty()) w.destroy(rnd(w.tl.size()));
            Call c(false, 1, true); ht_deinit(); c.end(); emit(c.j("Finish").raw("destroyed", World::ids(g_destroyed)));
            for (auto& g : w.lis) for (auto& l : g.second) if (!l->path.empty()) ::unlink(l->path.c_str()); }
        ht_allocator_set(nullptr, nullptr);
    });
}
