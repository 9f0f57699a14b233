// Reader-side events: histories of create, set, copy, move, assign, merge, edit
// and destroy over a few handles; after each operation every live event is
// reported completely.  Mode lookup: classes and fields by name.
#include "seq.hpp"
#include "wire.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace seq;
using namespace wire;
typedef P::FieldTypeId T;
struct Def { const char* n; T t; };
#define X10 "xxxxxxxxxx"
#define X50 X10 X10 X10 X10 X10
static const char g_63[] = X50 X10 "abc", g_64[] = X50 X10 "abcd", g_300[] = X50 X50 X50 X50 X50 X50;
static const Def g_defs[] = {{"timestamp", T::UINT64}, {"u8", T::UINT8}, {"i8", T::INT8}, {"u16", T::UINT16}, {"i16", T::INT16}, {"u32", T::UINT32}, {"i32", T::INT32}, {"u64", T::UINT64}, {"i64", T::INT64}, {"s1", T::STRING}, {"s2", T::STRING}, {"e1", T::STRUCT}, {"e2", T::STRUCT}, {"a field with a long name that needs memory of its own", T::STRING}, {g_63, T::UINT32}, {g_64, T::INT64}, {g_300, T::UINT16}};
static const int NDEF = sizeof g_defs / sizeof g_defs[0];
static uint64_t val() { switch (rnd(5)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << rnd(64); case 3: return rnd(300); default: return rnd(); } }
static std::string show(const P::Event& e);
static std::string show_value(const std::string& n, const P::Event::Value& v) {
    const char* t = "?"; std::string x, sub;
    switch (v.field->get_type_id()) {
        case T::UINT8: t = "u1"; x = std::to_string(v.value.f_UINT8); break;
        case T::INT8: t = "i1"; x = std::to_string(v.value.f_INT8); break;
        case T::UINT16: t = "u2"; x = std::to_string(v.value.f_UINT16); break;
        case T::INT16: t = "i2"; x = std::to_string(v.value.f_INT16); break;
        case T::UINT32: t = "u4"; x = std::to_string(v.value.f_UINT32); break;
        case T::INT32: t = "i4"; x = std::to_string(v.value.f_INT32); break;
        case T::UINT64: t = "u8"; x = std::to_string(v.value.f_UINT64); break;
        case T::INT64: t = "i8"; x = std::to_string(v.value.f_INT64); break;
        case T::STRING: t = v.value.f_STRING ? "s" : "s0"; if (v.value.f_STRING) x = v.value.f_STRING; break;
        case T::STRUCT: t = v.value.f_EVENT ? "e" : "e0"; if (v.value.f_EVENT) sub = show(*v.value.f_EVENT); break;
        default: break;
    }
    return "{\"n\":" + js(n) + ",\"t\":\"" + t + "\",\"v\":" + js(x) + ",\"sub\":[" + sub + "]}";
}
// the readers of one type, with and without a default
template <class V> static bool same(const P::Event& e, const char* n, V other, V raw) {
    if (!e.has_value(n)) return e.get_value_or_default<V>(n, other) == other;
    return e.get_value<V>(n) == raw && e.get_value_or_default<V>(n, other) == raw && e.get_value_or_default<V>(n, (V)raw) == raw;
}
static bool typed(const P::Event& e, const Def& d) {
    P::FieldType v{}; if (e.has_value(d.n)) v = e.get_raw_value(d.n).value;
    switch (d.t) {
        case T::UINT8: return same<uint8_t>(e, d.n, 77, v.f_UINT8);
        case T::INT8: return same<int8_t>(e, d.n, -7, v.f_INT8);
        case T::UINT16: return same<uint16_t>(e, d.n, 777, v.f_UINT16);
        case T::INT16: return same<int16_t>(e, d.n, -777, v.f_INT16);
        case T::UINT32: return same<uint32_t>(e, d.n, 77777, v.f_UINT32);
        case T::INT32: return same<int32_t>(e, d.n, -77777, v.f_INT32);
        case T::UINT64: return same<uint64_t>(e, d.n, 4711, v.f_UINT64);
        case T::INT64: return same<int64_t>(e, d.n, -4711, v.f_INT64);
        case T::STRING: { static char other[] = "other"; return same<char*>(e, d.n, other, v.f_STRING); }
        case T::STRUCT: { static P::Event* other = (P::Event*)&other; return same<P::Event*>(e, d.n, other, v.f_EVENT); }
        default: return true;
    }
}
static std::string show(const P::Event& e) {
    std::string f; size_t n = 0;
    for (auto& v : e.get_values()) { n++; f += (f.empty() ? "" : ",") + (v.second.field && v.second.field->get_name() == v.first ? show_value(v.first, v.second) : std::string("{\"n\":\"?\",\"t\":\"?\",\"v\":\"\",\"sub\":[]}")); }
    std::string has; // by name, one by one, must be the same fields
    for (auto& d : g_defs) {
        if (e.has_value(d.n)) has += (has.empty() ? "" : ",") + show_value(d.n, e.get_raw_value(d.n));
        if (!typed(e, d)) has += (has.empty() ? "" : ",") + std::string("{\"n\":\"?\",\"t\":\"?\",\"v\":\"\",\"sub\":[]}");
    }
    return "{\"kn\":" + js(e.get_klass() ? e.get_klass()->get_name() : "") + ",\"ts\":" + js(std::to_string(e.get_timestamp())) + ",\"f\":[" + f + "],\"has\":[" + has + "]}";
}
static char* dup(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static std::string text() { size_t n = chance(20) ? 0 : chance(70) ? rnd(12) : rnd(60); std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + rnd(26)); return s; }
static void history() {
    std::vector<std::shared_ptr<P::EventKlass>> ks;
    std::vector<std::vector<std::unique_ptr<P::EventKlassField>>> own; // kept for the whole case
    for (int k = 0; k < 3; k++) { ks.push_back(std::make_shared<P::EventKlass>(k == 1 ? "HT_Event" : "K" + std::to_string(k), k)); own.emplace_back(); for (auto& d : g_defs) own[k].emplace_back(new P::EventKlassField(d.n, "type", d.t)); }
    const int H = 5;
    std::unique_ptr<P::Event> h[H];
    bool dead[H] = {false}; // moved from: may only be assigned or destroyed
    auto pick = [&](bool live) { std::vector<int> v; for (int i = 0; i < H; i++) if ((bool)h[i] == live && !(live && dead[i])) v.push_back(i); return v.empty() ? -1 : v[rnd(v.size())]; };
    auto report = [&](J j) { std::string all; for (int i = 0; i < H; i++) if (h[i] && !dead[i]) all += (all.empty() ? "" : ",") + ("{\"h\":" + std::to_string(i) + ",\"ev\":" + show(*h[i]) + "}"); emit(j.raw("all", "[" + all + "]")); };
    int n = 6 + rnd(30);
    for (int i = 0; i < n; i++) {
        int r = rnd(100);
        if (r < 12) { int a = pick(false); if (a < 0) continue; int k = rnd(3); h[a].reset(new P::Event(ks[k])); dead[a] = false; report(J("New").i("h", a).t("kn", ks[k]->get_name())); }
        else if (r < 42) {
            int a = pick(true); if (a < 0) continue; int d = rnd(NDEF), k = rnd(3); if (h[a]->has_value(g_defs[d].n)) continue;
            P::FieldType v{}; std::string x, sub; const char* t = "?"; uint64_t u = val();
            P::EventKlassField* f = own[k][d].get();
            switch (g_defs[d].t) {
                case T::UINT8: if (chance(50)) { h[a]->set_value<uint8_t>(f, u); f = nullptr; } else v.f_UINT8 = u; t = "u1"; x = std::to_string((uint8_t)u); break;
                case T::INT8: v.f_INT8 = u; t = "i1"; x = std::to_string((int8_t)u); break;
                case T::UINT16: v.f_UINT16 = u; t = "u2"; x = std::to_string((uint16_t)u); break;
                case T::INT16: if (chance(50)) { h[a]->set_value<int16_t>(f, u); f = nullptr; } else v.f_INT16 = u; t = "i2"; x = std::to_string((int16_t)u); break;
                case T::UINT32: v.f_UINT32 = u; t = "u4"; x = std::to_string((uint32_t)u); break;
                case T::INT32: v.f_INT32 = u; t = "i4"; x = std::to_string((int32_t)u); break;
                case T::UINT64: if (chance(50)) { h[a]->set_value<uint64_t>(f, u); f = nullptr; } else v.f_UINT64 = u; t = "u8"; x = std::to_string(u); break;
                case T::INT64: v.f_INT64 = u; t = "i8"; x = std::to_string((int64_t)u); break;
                case T::STRING: if (chance(15)) { v.f_STRING = nullptr; t = "s0"; } else { x = text(); v.f_STRING = dup(x); t = "s"; } break;
                default: { int b = pick(true); if (chance(10) || b < 0) { v.f_EVENT = nullptr; t = "e0"; } else { v.f_EVENT = new P::Event(*h[b]); t = "e"; sub = std::to_string(b); } break; }
            }
            if (f) h[a]->set_value(f, v);
            report(J("Set").i("h", a).t("n", g_defs[d].n).t("t", t).t("v", x).raw("from", "[" + sub + "]"));
        }
        else if (r < 50) { int a = pick(true), b = pick(false); if (a < 0 || b < 0) continue; h[b].reset(new P::Event(*h[a])); dead[b] = false; report(J("Copy").i("h", b).i("from", a)); }
        else if (r < 56) { int a = pick(true), b = pick(false); if (a < 0 || b < 0) continue; h[b].reset(new P::Event(std::move(*h[a]))); dead[b] = false; dead[a] = true; report(J("Move").i("h", b).i("from", a)); }
        else if (r < 68) { int a = pick(true), b = rnd(H); if (a < 0 || !h[b]) continue; *h[b] = *h[a]; dead[b] = false; report(J("Assign").i("h", b).i("from", a)); }
        else if (r < 73) { int a = pick(true), b = rnd(H); if (a < 0 || !h[b] || a == b) continue; *h[b] = std::move(*h[a]); dead[b] = false; dead[a] = true; report(J("MoveAssign").i("h", b).i("from", a)); }
        else if (r < 82) { int a = pick(true), b = pick(true); if (a < 0 || b < 0) continue; h[b]->merge(*h[a]); report(J("Merge").i("h", b).i("from", a)); }
        else if (r < 86) { int a = pick(true), b = pick(true); if (a < 0 || b < 0 || a == b) continue; h[b]->merge(std::move(*h[a])); dead[a] = true; report(J("MergeMove").i("h", b).i("from", a)); }
        else if (r < 92) { // edit a text in place, possibly one level down
            int a = pick(true); if (a < 0) continue; P::Event* e = h[a].get(); std::string path;
            if (chance(40) && e->has_value("e1") && e->get_value<P::Event*>("e1")) { e = e->get_value<P::Event*>("e1"); path = "\"e1\""; }
            const char* n = chance(50) ? "s1" : "s2"; if (!e->has_value(n) || !e->get_value<char*>(n) || !*e->get_value<char*>(n)) continue;
            char* s = e->get_value<char*>(n); s[rnd(strlen(s))] = (char)('A' + rnd(26));
            report(J("Poke").i("h", a).raw("path", "[" + path + "]").t("n", n).t("v", s));
        }
        else { int a = rnd(H); if (!h[a]) continue; h[a].reset(); report(J("Drop").i("h", a)); }
    }
}
static void lookup() {
    // a directed family of classes; names repeat on purpose
    std::vector<std::shared_ptr<P::EventKlass>> ks; int n = 1 + rnd(5);
    static const char* names[] = {"a", "b", "c", "base", "x", "label", "timestamp"};
    std::string desc;
    for (int i = 0; i < n; i++) {
        std::string nm = "K" + std::to_string(i); ks.push_back(std::make_shared<P::EventKlass>(nm, i)); std::string fs; int m = rnd(5);
        for (int j = 0; j < m; j++) {
            std::string fn = names[rnd(7)]; bool st = i > 0 && chance(35); int sub = st && chance(85) ? (int)rnd(i) : -1; T t = st ? T::STRUCT : chance(50) ? T::UINT32 : T::STRING;
            std::string ty = st ? (sub >= 0 ? "K" + std::to_string(sub) : "Unknown") : t == T::UINT32 ? "t" + std::to_string(rnd(3)) : "s" + std::to_string(rnd(3));
            ks[i]->add_field(std::unique_ptr<P::EventKlassField>(new P::EventKlassField(fn, ty, t, sub >= 0 ? ks[sub] : nullptr)));
            fs += (fs.empty() ? "" : ",") + ("{\"n\":" + js(fn) + ",\"ty\":" + js(ty) + ",\"sub\":" + std::to_string(sub + 1) + "}");
        }
        desc += (desc.empty() ? "" : ",") + ("[" + fs + "]");
    }
    std::string all, got;
    for (int i = 0; i < n; i++) {
        std::string fs; for (auto& f : ks[i]->get_fields()) fs += (fs.empty() ? "" : ",") + ("{\"n\":" + js(f->get_name()) + ",\"ty\":" + js(f->get_type_name()) + "}");
        all += (all.empty() ? "" : ",") + ("[" + fs + "]");
        for (auto nm : names) for (int rec = 0; rec < 2; rec++) {
            auto f = ks[i]->get_field(nm, rec);
            got += (got.empty() ? "" : ",") + ("{\"k\":" + std::to_string(i + 1) + ",\"n\":" + js(nm) + ",\"rec\":" + (rec ? "true" : "false") + ",\"res\":[" + (f ? "{\"n\":" + js(f->get_name()) + ",\"ty\":" + js(f->get_type_name()) + "}" : "") + "]}");
        }
    }
    emit(J("Lookup").raw("added", "[" + desc + "]").raw("all", "[" + all + "]").raw("got", "[" + got + "]"));
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    bool warm = false;
    seq::run(a, false, [&](uint64_t) {
        if (a.mode == "lookup") { lookup(); return; }
        uint64_t s = rng().s;
        if (!warm) { warm = true; size_t l = shm()->len; history(); shm()->len = l; rng().s = s; }
        size_t before = __sanitizer_get_current_allocated_bytes();
        history();
        emit(J("End").i("left", (long long)(__sanitizer_get_current_allocated_bytes() - before)));
    });
}
