// Streams through the real parser: written by the real library (mode round) or
// by an independent writer from random classes, whole, cut or damaged (gen, cut, damage).
#include "seq.hpp"
#include "wire.hpp"
#include "events.h"
#include <hawktracer.h>
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/debug_event_listener.hpp>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace seq;
using namespace wire;

// the bytes come from memory or from a file read by the real FileStream
static std::unique_ptr<P::Stream> source(const std::string& b) {
    static int fd = -1;
    if (chance(65)) return std::unique_ptr<P::Stream>(new MemStream(b));
    if (fd >= 0) close(fd);
    fd = memfd_create("s", MFD_CLOEXEC);
    for (size_t k = 0; k < b.size();) { ssize_t w = write(fd, b.data() + k, b.size() - k); if (w <= 0) abort(); k += (size_t)w; }
    return std::unique_ptr<P::Stream>(new P::FileStream("/proc/self/fd/" + std::to_string(fd)));
}
static void read_stream(const std::string& b, bool flat, bool lib) {
    P::KlassRegister reg;
    std::string evs;
    {
        P::ProtocolReader r(&reg, source(b), flat);
        r.register_events_listener([&](const P::Event& e) { evs += (evs.empty() ? "" : ",") + report(e); });
        r.start();
        r.wait_for_complete();
        r.stop();
    }
    emit(J("Read").b("flat", flat).b("lib", lib).raw("b", bytes(b)).raw("evs", "[" + evs + "]").raw("reg", classes(reg)).b("unknown", reg.klass_exists(0xfffff000u) || reg.get_klass("no such class") || reg.get_klass(0xfffff000u)));
}
// events outlive the reader and the class register, partly as copies; everything is released in the end
static size_t keep_once(const std::string& b, bool flat, std::string& evs) {
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
        std::vector<P::Event> kept; std::unique_ptr<P::Event> last;
        {
            std::unique_ptr<P::KlassRegister> reg(new P::KlassRegister);
            std::unique_ptr<P::ProtocolReader> r(new P::ProtocolReader(reg.get(), source(b), flat));
            r->register_events_listener([&](const P::Event& e) { if (!last) last.reset(new P::Event(e)); else *last = e; kept.push_back(*last); });
            r->start(); r->wait_for_complete(); r->stop();
            bool reg_first = rnd(2);
            if (reg_first) { r.reset(); reg.reset(); } else { r.reset(); }
        }
        if (chance(30) && !kept.empty()) { std::vector<P::Event> other(kept); kept = std::move(other); }
        std::string t; for (auto& e : kept) t += (t.empty() ? "" : ",") + report(e);
        evs.assign(t);
        if (!kept.empty() && chance(50)) kept.erase(kept.begin() + rnd(kept.size()));
    }
    return __sanitizer_get_current_allocated_bytes() - before - 0;
}
static void keep_stream(const std::string& b, bool flat) {
    std::string evs; static bool warm = false;
    uint64_t s = rng().s; keep_once(b, flat, evs); if (!warm) { warm = true; rng().s = s; keep_once(b, flat, evs); }
    rng().s = s; evs.reserve(evs.size() + 64);
    size_t left = keep_once(b, flat, evs);
    emit(J("Read").b("flat", flat).b("lib", false).raw("b", bytes(b)).i("left", (long long)left).raw("evs", "[" + evs + "]"));
}
// ------------------------------------------------------------------- debug
// what the debugging listener prints for the events it is given
static std::string held(const P::Event& e) {
    std::string r;
    for (auto& v : e.get_values()) {
        bool st = v.second.field->get_type_id() == P::FieldTypeId::STRUCT;
        r += (r.empty() ? "" : ",") + ("{\"x\":" + (st ? fld(v.first, "e", "[]") : value(v.first, v.second)) + ",\"ty\":" + bytes(v.second.field->get_type_name()) + ",\"sub\":" + (st ? held(*v.second.value.f_EVENT) : "[]") + "}");
    }
    return "[" + r + "]";
}
static void debug_stream(const std::string& b, bool flat) {
    P::KlassRegister reg; std::string evs; std::ostringstream out;
    std::streambuf* old = std::cout.rdbuf(out.rdbuf());
    {
        P::DebugEventListener dbg; size_t from = 0;
        P::ProtocolReader r(&reg, source(b), flat);
        r.register_events_listener([&](const P::Event& e) {
            dbg(e); std::string t = out.str().substr(from); from += t.size();
            evs += (evs.empty() ? "" : ",") + ("{\"kn\":" + bytes(e.get_klass()->get_name()) + ",\"f\":" + held(e) + ",\"out\":" + bytes(t) + "}");
        });
        r.start(); r.wait_for_complete(); r.stop();
        dbg.print_statistics();
        emit(J("Debug").raw("evs", "[" + evs + "]").raw("stats", bytes(out.str().substr(from))));
    }
    std::cout.rdbuf(old);
}
// ------------------------------------------------------------------- round
static int g_long = 0;   // in few cases one text is far longer than any buffer
static std::string text() {
    if (g_long && chance(30)) { g_long = 0; size_t n = chance(70) ? (4096u << rnd(7)) - 3 + rnd(6) : 4000 + rnd(270000); std::string s(n, 'a' + rnd(26)); for (int i = rnd(20); i > 0; i--) s[rnd(n)] = (char)(1 + rnd(255)); return s; }
    size_t n = chance(15) ? 0 : chance(80) ? rnd(14) : chance(80) ? 30 + rnd(5) : 60 + rnd(300);
    std::string s; for (size_t i = 0; i < n; i++) s += (char)(chance(70) ? 'a' + rnd(26) : 1 + rnd(255));
    return s;
}
static uint64_t val() { switch (rnd(6)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << rnd(64); case 3: return rnd(300); case 4: return 0x8000000000000000ull >> (8 * rnd(8)); default: return rnd(); } }
static std::string head(const HT_Event* e) { return "[" + fnum("klass_id", (uint32_t)e->klass->klass_id) + "," + fnum("timestamp", (uint64_t)e->timestamp) + "," + fnum("id", (uint64_t)e->id) + "]"; }
static std::string hbase(const HT_Event* e) { return sub("base", "HT_Event", head(e)); }
static std::string f_str(const VStr& x) { return "[" + hbase(&x.base) + "," + fstr("s1", x.s1) + "," + fnum("mid", x.mid) + "," + fstr("s2", x.s2) + "]"; }
static std::string f_nest(const VNest& x) { return "[" + hbase(&x.base) + "," + fnum("head", x.head) + "," + sub("inner", "VStr", f_str(x.inner)) + "," + fnum("tail", x.tail) + "]"; }
static std::string f_cs(const HT_CallstackBaseEvent& x) { return "[" + hbase(&x.base) + "," + fnum("duration", x.duration) + "," + fnum("thread_id", x.thread_id) + "]"; }
static std::string f_base(const VBase& x) { return "[" + sub("base", "HT_CallstackBaseEvent", f_cs(x.base)) + "," + fnum("code", x.code) + "," + fstr("label", x.label) + "]"; }
static std::string f_inh(const VInh& x) { return "[" + sub("base", "VBase", f_base(x.base)) + "," + fnum("extra", x.extra) + "," + fstr("note", x.note) + "]"; }
static std::vector<std::unique_ptr<std::string>> g_texts;
static const char* t() { if (chance(12)) return nullptr; g_texts.emplace_back(new std::string(text())); return g_texts.back()->c_str(); }
static void hd(HT_Event* e, HT_EventKlass* k) { e->klass = k; e->timestamp = val(); e->id = val(); }
static void fill(VStr& x) { hd(&x.base, HT_EVENT_KLASS_GET(VStr)); x.s1 = t(); x.mid = val(); x.s2 = t(); }
static void fill(VNest& x) { hd(&x.base, HT_EVENT_KLASS_GET(VNest)); x.head = val(); fill(x.inner); x.tail = val(); }
static void fill(VBase& x) { hd(&x.base.base, HT_EVENT_KLASS_GET(VBase)); x.base.duration = val(); x.base.thread_id = val(); x.code = val(); x.label = t(); }
static void fill(VInh& x) { fill(x.base); x.base.base.base.klass = HT_EVENT_KLASS_GET(VInh); x.extra = val(); x.note = t(); }
static void wrote(const char* kn, const std::string& f) { emit(J("Wrote").raw("kn", bytes(kn)).raw("f", f)); }
static void push_one(HT_Timeline* tl) {
    switch (rnd(10)) {
        case 0: { VInts x; memset(&x, 0, sizeof x); hd(&x.base, HT_EVENT_KLASS_GET(VInts)); x.u8 = val(); x.i8 = val(); x.u16 = val(); x.i16 = val(); x.u32 = val(); x.i32 = val(); x.u64 = val(); x.i64 = val();
            wrote("VInts", "[" + hbase(&x.base) + "," + fnum("u8", x.u8) + "," + fnum("i8", x.i8) + "," + fnum("u16", x.u16) + "," + fnum("i16", x.i16) + "," + fnum("u32", x.u32) + "," + fnum("i32", x.i32) + "," + fnum("u64", x.u64) + "," + fnum("i64", x.i64) + "]");
            ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 1: { VStr x; memset(&x, 0, sizeof x); fill(x); wrote("VStr", f_str(x)); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 2: { VNest x; memset(&x, 0, sizeof x); fill(x); wrote("VNest", f_nest(x)); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 3: { VBase x; memset(&x, 0, sizeof x); fill(x); wrote("VBase", f_base(x)); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 4: { VInh x; memset(&x, 0, sizeof x); fill(x); wrote("VInh", f_inh(x)); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 5: { VNest2 x; memset(&x, 0, sizeof x); fill(x.base); x.base.base.base.base.klass = HT_EVENT_KLASS_GET(VNest2); fill(x.nest); x.last = val(); hd(&x.plain, HT_EVENT_KLASS_GET(HT_Event));
            wrote("VNest2", "[" + sub("base", "VInh", f_inh(x.base)) + "," + sub("nest", "VNest", f_nest(x.nest)) + "," + fnum("last", x.last) + "," + sub("plain", "HT_Event", head(&x.plain)) + "]");
            ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 6: { VBig x; memset(&x, 0, sizeof x); hd(&x.base, HT_EVENT_KLASS_GET(VBig)); uint64_t* f = &x.f1; std::string s = "[" + hbase(&x.base);
            for (int i = 0; i < 16; i++) { f[i] = val(); s += "," + fnum("f" + std::to_string(i + 1), f[i]); }
            wrote("VBig", s + "]"); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        case 7: { HT_Event x; hd(&x, HT_EVENT_KLASS_GET(HT_Event)); wrote("HT_Event", head(&x)); ht_timeline_push_event(tl, &x); break; }
        case 8: { HT_CallstackStringEvent x; memset(&x, 0, sizeof x); hd(&x.base.base, HT_EVENT_KLASS_GET(HT_CallstackStringEvent)); x.base.duration = val(); x.base.thread_id = val(); x.label = t();
            wrote("HT_CallstackStringEvent", "[" + sub("base", "HT_CallstackBaseEvent", f_cs(x.base)) + "," + fstr("label", x.label) + "]"); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
        default: { HT_StringMappingEvent x; memset(&x, 0, sizeof x); hd(&x.base, HT_EVENT_KLASS_GET(HT_StringMappingEvent)); x.identifier = val(); x.label = t();
            wrote("HT_StringMappingEvent", "[" + hbase(&x.base) + "," + fnum("identifier", x.identifier) + "," + fstr("label", x.label) + "]"); ht_timeline_push_event(tl, (HT_Event*)&x); break; }
    }
}
static void collect(TEventPtr e, size_t n, HT_Boolean ser, void* ud) {
    std::string& o = *(std::string*)ud;
    if (ser) { o.append((const char*)e, n); return; }
    for (size_t i = 0; i < n;) { HT_Event* ev = (HT_Event*)(e + i); size_t sz = ev->klass->get_size(ev); std::string x(sz, '\0'); ev->klass->serialize(ev, (HT_Byte*)&x[0]); o += x; i += ev->klass->type_info->size; }
}
static void round_case() {
    static bool up = false;
    if (!up) { up = true; ht_init(0, nullptr); HT_REGISTER_EVENT_KLASS(VInts); HT_REGISTER_EVENT_KLASS(VStr); HT_REGISTER_EVENT_KLASS(VBase); HT_REGISTER_EVENT_KLASS(VNest); HT_REGISTER_EVENT_KLASS(VBig); HT_REGISTER_EVENT_KLASS(VInh); HT_REGISTER_EVENT_KLASS(VNest2); }
    std::string b;
    ht_timeline_listener_push_metadata(collect, &b, HT_TRUE);
    bool ser = chance(70);
    HT_Timeline* tl = ht_timeline_create(1 + rnd(chance(50) ? 100 : 2000), rnd(2), ser, nullptr, nullptr);
    ht_timeline_register_listener(tl, collect, &b);
    int n = rnd(9);
    for (int i = 0; i < n; i++) push_one(tl);
    ht_timeline_destroy(tl);
    g_texts.clear();
    read_stream(b, rnd(2), true);
}
// ------------------------------------------------------- independent writer
struct F { std::string n, t; int kind, size, sub; };
struct K { uint32_t id; std::string n; std::vector<F> f; };
static int g_uniq; // restarts with every case, so that a case runs alike on its own
static std::string uniq(const char* p) { return std::string(p) + std::to_string(++g_uniq); }
static void body(Out& o, const std::vector<K>& ks, int k, bool inh, uint32_t hk) {
    for (auto& f : ks[k].f) {
        if (f.kind == 2) o.s(text());
        else if (f.kind == 1) { if (f.sub == 0) { if (!(inh && f.n == "base")) o.head(hk, val(), val()); } else body(o, ks, f.sub, inh && f.n == "base", hk); }
        else if (f.kind == 6) o.n(val(), 8);
        else o.n(val(), f.size);
    }
}
static std::string gen(bool with_bad) {
    g_uniq = 0; Out o; o.big = rnd(2);
    if (o.big || chance(85)) o.endian(o.big);
    // sometimes preceded by the description of the bootstrap classes, as the library does
    std::vector<K> ks; ks.push_back(K{1, "HT_Event", {}});
    if (chance(40)) { o.klass(0, "HT_EndiannessInfoEvent", 2); o.field(0, "HT_Event", "base", 24, 1); o.field(0, "uint8_t", "endianness", 1, 99);
        o.klass(1, "HT_Event", 3); o.field(1, "HT_EventKlass*", "klass", 8, 6); o.field(1, "uint64_t", "timestamp", 8, 99); o.field(1, "uint64_t", "id", 8, 99);
        o.klass(2, "HT_EventKlassInfoEvent", 1); o.field(2, "HT_Event", "base", 24, 1); }
    int nk = 1 + rnd(5);
    auto events = [&](int n) { for (int i = 0; i < n; i++) {
        int k = rnd(ks.size());
        if (k == 0) { if (chance(20)) o.head(1, val(), val()); else if (chance(30)) { bool same = o.big; o.endian(same); } continue; }
        o.head(ks[k].id, val(), val()); body(o, ks, k, true, ks[k].id); } };
    for (int i = 0; i < nk; i++) {
        K k; k.id = chance(70) ? 4 + i : 1000 + 1000 * i + rnd(900); if (chance(5)) k.id = 0xfffffff0u - i;
        k.n = uniq(chance(10) ? "Class with a much longer name than usual " : "K");
        o.klass(k.id, k.n, 3);
        int parent = chance(20) && ks.size() > 1 ? 1 + rnd(ks.size() - 1) : 0;
        if (chance(92)) k.f.push_back(F{"base", ks[parent].n, 1, 0, parent});
        int nf = rnd(6);
        for (int j = 0; j < nf; j++) {
            static const int sz[] = {1, 2, 4, 8};
            int r = rnd(100);
            if (r < 30) k.f.push_back(F{uniq("s"), "const char*", 2, 8, 0});
            else if (r < 60) { int s = sz[rnd(4)]; k.f.push_back(F{uniq("u"), "uint", 99, s, 0}); }
            else if (r < 88) { int s = sz[rnd(4)]; k.f.push_back(F{uniq("i"), "int", 3, s, 0}); }
            else if (r < 98) { int s = rnd(ks.size()); k.f.push_back(F{uniq("n"), ks[s].n, 1, 0, s}); }
            else if (with_bad) k.f.push_back(F{uniq("p"), "void*", 6, 8, 0});
        }
        if (chance(8)) std::reverse(k.f.begin(), k.f.end());
        for (auto& f : k.f) { o.field(k.id, f.t, f.n, f.kind == 1 ? 24 : f.size, f.kind); if (chance(5)) o.field(k.id, "again", f.n, 4, 3); }
        ks.push_back(k);
        if (chance(30)) events(rnd(3));
        if (chance(4)) o.klass(k.id, "another name", 0);
    }
    events(1 + rnd(8));
    return o.b;
}
static std::string damage(std::string b) {
    int n = 1 + rnd(3);
    for (int i = 0; i < n && !b.empty(); i++) {
        size_t p = rnd(b.size());
        switch (rnd(7)) {
            case 0: b[p] = (char)rnd(256); break;
            case 1: b[p] ^= (char)(1 << rnd(8)); break;
            case 2: b.erase(p, 1 + rnd(8)); break;
            case 3: { std::string g; for (int j = rnd(12); j >= 0; j--) g += (char)rnd(256); b.insert(p, g); break; }
            case 4: { size_t q = rnd(b.size()), m = rnd(40); b.insert(p, b.substr(q, m)); break; }
            case 5: b[p] = 0; break;
            default: b.resize(p); break;
        }
    }
    return b;
}
// descriptions nobody can use, and classes nobody described
static std::string odd() {
    Out o; o.big = rnd(2); o.endian(o.big);
    o.klass(10, "A", 1); o.field(10, "HT_Event", "base", 24, 1); o.field(10, "int", "x", 4, 3);
    o.klass(11, "B", 1); o.field(11, "HT_Event", "base", 24, 1);
    o.head(10, val(), val()); o.n(val(), 4);
    switch (rnd(17)) {
        case 0: o.field(10, "float", "y", 4, 4); break;
        case 1: o.field(10, "double", "y", 8, 5); break;
        case 2: o.field(10, "what", "y", 8, rnd(256)); break;
        case 3: o.field(10, "int", "y", rnd(20), chance(50) ? 3 : 99); break;
        case 4: o.field(77, "int", "y", 4, 3); break;
        case 5: o.field(10, "A", "self", 4, 1); break;
        case 6: o.field(10, "B", "b", 4, 1); o.field(11, "A", "a", 4, 1); break;
        case 7: o.field(10, "Unknown", "u", 4, 1); break;
        case 8: o.field(10, "void*", "p", 8, 6); break;
        case 9: o.head(99, val(), val()); break;
        case 10: o.field(11, "HT_EventKlassInfoEvent", "ki", 4, 1); o.head(11, val(), val()); o.n(4, 4); o.s(text()); o.n(3, 1); break;
        case 11: o.field(10, "int", "y", 0x100000004ull, 3); break;
        case 14: o.field(10, "Late", "u", 4, 1); o.klass(12, "Late", 1); o.field(12, "int", "z", 2, 3); o.head(10, val(), val()); o.n(val(), 4); o.n(val(), 2); break;
        case 15: o.field(10, "Late", "u", 4, 1); o.klass(12, "Late", 1); o.field(12, "A", "z", 2, 1); o.head(10, val(), val()); o.n(val(), 4); o.n(val(), 2); break;
        case 16: o.field(10, "Late", "u", 4, 1); o.field(11, "A", "a", 4, 1); o.klass(12, "Late", 1); o.field(12, "B", "z", 2, 1); o.head(10, val(), val()); o.n(val(), 4); o.n(val(), 2); break;
        case 12: o.field(10, "int", "y", 4, 3); o.field(10, "Unknown", "base", 4, 1); o.head(10, val(), val()); o.n(val(), 4); o.n(val(), 4); break;
        default: o.field(0, "int", "more", 4, 3); o.endian(o.big); o.n(val(), 4); break;
    }
    for (int i = rnd(4); i > 0; i--) { o.head(10, val(), val()); o.n(val(), 4); o.n(val(), 8); }
    if (chance(50)) o.head(11, val(), val());
    return o.b;
}
// a field has the name of a field of the base class: either may be shown, nothing is lost
static std::string collide() {
    Out o; o.big = rnd(2); o.endian(o.big);
    o.klass(10, "A", 1); o.field(10, "HT_Event", "base", 24, 1); bool i = rnd(2); if (i) o.field(10, "int", "label", 4, 3); else o.field(10, "const char*", "label", 8, 2);
    o.klass(11, "B", 1); o.field(11, "A", "base", 24, 1); bool j = rnd(2); if (j) o.field(11, "int", "label", 4, 3); else o.field(11, "const char*", "label", 8, 2); o.field(11, "uint", "x", 2, 99);
    o.klass(12, "C", 1); o.field(12, "HT_Event", "base", 24, 1); o.field(12, "A", "one", 4, 1); o.field(12, "A", "two", 4, 1);
    auto a = [&] { if (i) o.n(val(), 4); else o.s(text()); };
    // and the names of the fields every event has
    static const char* const own[] = {"timestamp", "id", "klass_id"};
    o.klass(13, "D", 1); bool first = rnd(2); if (first) o.field(13, "HT_Event", "base", 24, 1);
    int c[3]; for (int q = 0; q < 3; q++) { c[q] = rnd(4); if (c[q] == 1) o.field(13, "int", own[q], 8, 3); else if (c[q] == 2) o.field(13, "const char*", own[q], 8, 2); else if (c[q] == 3) o.field(13, "uint", own[q], 2, 99); }
    if (!first) o.field(13, "HT_Event", "base", 24, 1);
    o.klass(14, "E", 1); o.field(14, "HT_Event", "base", 24, 1); o.field(14, "D", "more", 4, 1);
    auto d = [&](bool header) { if (header && first) o.head(13, val(), val()); for (int q = 0; q < 3; q++) if (c[q] == 1) o.n(val(), 8); else if (c[q] == 2) o.s(text()); else if (c[q] == 3) o.n(val(), 2); if (header && !first) o.head(13, val(), val()); };
    for (int n = rnd(4); n >= 0; n--) {
        o.head(11, val(), val()); a(); if (j) o.n(val(), 4); else o.s(text()); o.n(val(), 2); o.head(12, val(), val()); for (int q = 0; q < 2; q++) { o.head(10, val(), val()); a(); }
        if (chance(60)) { o.head(13, val(), val()); d(false); }
        if (chance(40)) { o.head(14, val(), val()); d(true); }
    }
    return o.b;
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    seq::run(a, false, [&](uint64_t n) {
        g_long = chance(a.mode == "round" ? 5 : 2) && a.mode != "cut" && a.mode != "debug";
        if (a.mode == "round") round_case();
        else if (a.mode == "keep") { std::string b = chance(70) ? gen(false) : chance(30) ? collide() : chance(50) ? odd() : damage(gen(true)); keep_stream(b, rnd(2)); }
        else if (a.mode == "gen") read_stream(chance(10) ? collide() : gen(false), rnd(2), false);
        else if (a.mode == "cut") { // one stream, cut everywhere in a window
            std::string b = gen(true); size_t p = rnd(b.size() + 1), w = 1 + rnd(6); bool flat = rnd(2);
            for (size_t c = p; c < p + w && c <= b.size(); c++) read_stream(b.substr(0, c), flat, false);
        } else if (a.mode == "debug") { std::string b = chance(80) ? gen(chance(50)) : chance(50) ? collide() : odd(); debug_stream(b, rnd(2)); }
        else if (a.mode == "odd") read_stream(odd(), rnd(2), false);
        else { std::string b; if (chance(15)) { for (int i = rnd(200); i > 0; i--) b += (char)(chance(50) ? rnd(5) : rnd(256)); } else if (chance(20)) b = damage(odd()); else b = damage(gen(true)); read_stream(b, rnd(2), false); }
    });
}
