// The declared truth about the event classes the drivers use, written down
// independently of the library's reflection.
#pragma once
#include "events.h"
#include "wire.hpp"
#include <hawktracer.h>
#include <hawktracer/registry.h>
#include <deque>
namespace kl {
using namespace wire;
struct F { std::string t, n; uint64_t size; int kind; };
struct C { std::string n; std::vector<F> f; };
inline std::string jf(const std::vector<F>& f) {
    std::string r = "[";
    for (size_t i = 0; i < f.size(); i++) { if (i) r += ","; r += "{\"n\":" + bytes(f[i].n) + ",\"t\":" + bytes(f[i].t) + ",\"size\":" + num(f[i].size) + ",\"kind\":" + std::to_string(f[i].kind) + "}"; }
    return r + "]";
}
const int ST = 1, TX = 2, IN = 3, PT = 6, UN = 99;
inline F ev() { return {"HT_Event", "base", 24, ST}; }
inline F cs() { return {"HT_CallstackBaseEvent", "base", sizeof(HT_CallstackBaseEvent), ST}; }
inline const std::vector<C>& core() {
    static const std::vector<C> v = {
        {"HT_EndiannessInfoEvent", {ev(), {"uint8_t", "endianness", 1, UN}}},
        {"HT_Event", {{"HT_EventKlass*", "klass", 8, PT}, {"HT_TimestampNs", "timestamp", 8, UN}, {"HT_EventId", "id", 8, UN}}},
        {"HT_EventKlassInfoEvent", {ev(), {"HT_EventKlassId", "info_klass_id", 4, UN}, {"const char*", "event_klass_name", 8, TX}, {"uint8_t", "field_count", 1, UN}}},
        {"HT_EventKlassFieldInfoEvent", {ev(), {"HT_EventKlassId", "info_klass_id", 4, UN}, {"const char*", "field_type", 8, TX}, {"const char*", "field_name", 8, TX}, {"uint64_t", "size", 8, UN}, {"uint8_t", "data_type", 1, UN}}},
        {"HT_CallstackBaseEvent", {ev(), {"HT_DurationNs", "duration", 8, UN}, {"HT_ThreadId", "thread_id", 4, UN}}},
        {"HT_CallstackIntEvent", {cs(), {"HT_CallstackEventLabel", "label", 8, UN}}},
        {"HT_CallstackStringEvent", {cs(), {"const char*", "label", 8, TX}}},
        {"HT_StringMappingEvent", {ev(), {"uint64_t", "identifier", 8, UN}, {"const char*", "label", 8, TX}}},
        {"HT_SystemInfoEvent", {ev(), {"uint8_t", "version_major", 1, UN}, {"uint8_t", "version_minor", 1, UN}, {"uint8_t", "version_patch", 1, UN}}}};
    return v;
}
inline const std::vector<C>& own() {
    static std::vector<C> v;
    if (v.empty()) {
        v = {{"VInts", {ev(), {"uint8_t", "u8", 1, UN}, {"int8_t", "i8", 1, IN}, {"uint16_t", "u16", 2, UN}, {"int16_t", "i16", 2, IN}, {"uint32_t", "u32", 4, UN}, {"int32_t", "i32", 4, IN}, {"uint64_t", "u64", 8, UN}, {"int64_t", "i64", 8, IN}}},
             {"VStr", {ev(), {"const char*", "s1", 8, TX}, {"uint32_t", "mid", 4, UN}, {"const char*", "s2", 8, TX}}},
             {"VBase", {{"HT_CallstackBaseEvent", "base", sizeof(HT_CallstackBaseEvent), ST}, {"uint16_t", "code", 2, UN}, {"const char*", "label", 8, TX}}},
             {"VDeep", {{"VBase", "base", sizeof(VBase), ST}, {"int64_t", "extra", 8, IN}, {"void*", "ptr", 8, PT}, {"const char*", "note", 8, TX}}},
             {"VNest", {ev(), {"uint8_t", "head", 1, UN}, {"VStr", "inner", sizeof(VStr), ST}, {"uint16_t", "tail", 2, UN}}},
             {"VBig", {ev()}}, {"VBaseOnly", {ev(), {"uint8_t", "x", 1, UN}}},
             {"VInh", {{"VBase", "base", sizeof(VBase), ST}, {"int64_t", "extra", 8, IN}, {"const char*", "note", 8, TX}}},
             {"VNest2", {{"VInh", "base", sizeof(VInh), ST}, {"VNest", "nest", sizeof(VNest), ST}, {"uint8_t", "last", 1, UN}, {"HT_Event", "plain", 24, ST}}}};
        for (int i = 1; i <= 16; i++) v[5].f.push_back({"uint64_t", "f" + std::to_string(i), 8, UN});
    }
    return v;
}
inline HT_EventKlassId reg_own(int i) {
    switch (i) { case 0: return HT_REGISTER_EVENT_KLASS(VInts); case 1: return HT_REGISTER_EVENT_KLASS(VStr); case 2: return HT_REGISTER_EVENT_KLASS(VBase); case 3: return HT_REGISTER_EVENT_KLASS(VDeep); case 4: return HT_REGISTER_EVENT_KLASS(VNest);
        case 5: return HT_REGISTER_EVENT_KLASS(VBig); case 6: return HT_REGISTER_EVENT_KLASS(VBaseOnly); case 7: return HT_REGISTER_EVENT_KLASS(VInh); default: return HT_REGISTER_EVENT_KLASS(VNest2); }
}
// classes made at run time
struct Dyn {
    C c; HT_EventKlass k; MKCREFLECT_TypeInfo ti; std::vector<MKCREFLECT_FieldInfo> fi;
    explicit Dyn(const C& x) : c(x) {
        memset(&k, 0, sizeof k); memset(&ti, 0, sizeof ti);
        for (auto& f : c.f) { MKCREFLECT_FieldInfo i; memset(&i, 0, sizeof i); i.field_type = f.t.c_str(); i.field_name = f.n.c_str(); i.size = f.size; i.is_signed = f.kind == IN; i.array_size = -1; i.data_type = f.kind == UN ? MKCREFLECT_TYPES_INTEGER : (MKCREFLECT_Types)f.kind; fi.push_back(i); }
        ti.name = c.n.c_str(); ti.fields_count = fi.size(); ti.size = sizeof(HT_Event); ti.fields = fi.data();
        k.type_info = &ti; k.klass_id = HT_INVALID_KLASS_ID;
    }
    Dyn(const Dyn&) = delete;
};
inline void collect(TEventPtr e, size_t n, HT_Boolean ser, void* ud) {
    std::string& o = *(std::string*)ud;
    if (ser) { o.append((const char*)e, n); return; }
    for (size_t i = 0; i < n;) { HT_Event* v = (HT_Event*)(e + i); size_t sz = v->klass->get_size(v); std::string x(sz, '\0'); v->klass->serialize(v, (HT_Byte*)&x[0]); o += x; i += v->klass->type_info->size; }
}
inline bool big_endian() { union { uint32_t a; uint8_t b[4]; } u; u.a = 1; return u.b[0] == 0; }
}
