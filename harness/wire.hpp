// Byte-level helpers: memory stream for the parser, event reports, a stream
// writer that is independent of the library.
#pragma once
#include "common.hpp"
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/stream.hpp>
#include <algorithm>
namespace wire {
namespace P = HawkTracer::parser;
inline std::string bytes(const void* p, size_t n) { std::string r = "["; for (size_t i = 0; i < n; i++) { if (i) r += ","; r += std::to_string((int)((const uint8_t*)p)[i]); } return r + "]"; }
inline std::string bytes(const std::string& s) { return bytes(s.data(), s.size()); }
template <class T> std::string num(T v) { std::string r = "["; for (int i = (int)sizeof(T) - 1; i >= 0; i--) { r += std::to_string((int)(((uint64_t)v >> (8 * i)) & 255)); if (i) r += ","; } return r + "]"; }
inline std::string fld(const std::string& n, const std::string& t, const std::string& v) { return "{\"n\":" + bytes(n) + ",\"t\":\"" + t + "\",\"v\":" + v + "}"; }
inline std::string sub(const std::string& n, const std::string& kn, const std::string& f) { return "{\"n\":" + bytes(n) + ",\"t\":\"e\",\"kn\":" + bytes(kn) + ",\"f\":" + f + "}"; }
template <class T> std::string fnum(const std::string& n, T v) { return fld(n, std::string(std::is_signed<T>::value ? "i" : "u") + std::to_string(sizeof(T)), num(v)); }
inline std::string fstr(const std::string& n, const char* s) { return fld(n, "s", bytes(s ? s : "")); }

class MemStream : public P::Stream {
public:
    explicit MemStream(std::string d) : _d(d.size() ? new char[d.size()] : nullptr), _n(d.size()) { if (_n) memcpy(_d.get(), d.data(), _n); }
    int read_byte() override { return _p < _n ? (unsigned char)_d[_p++] : -1; }
    bool read_data(char* b, size_t n) override { if (_n - _p < n) { _p = _n; return false; } memcpy(b, _d.get() + _p, n); _p += n; return true; }
    bool is_continuous() override { return false; }
private:
    std::unique_ptr<char[]> _d; size_t _n, _p = 0;
};
inline std::string fields(const P::Event& e);
inline std::string value(const std::string& n, const P::Event::Value& v) {
    switch (v.field->get_type_id()) {
        case P::FieldTypeId::UINT8: return fnum(n, v.value.f_UINT8);
        case P::FieldTypeId::INT8: return fnum(n, v.value.f_INT8);
        case P::FieldTypeId::UINT16: return fnum(n, v.value.f_UINT16);
        case P::FieldTypeId::INT16: return fnum(n, v.value.f_INT16);
        case P::FieldTypeId::UINT32: return fnum(n, v.value.f_UINT32);
        case P::FieldTypeId::INT32: return fnum(n, v.value.f_INT32);
        case P::FieldTypeId::UINT64: return fnum(n, v.value.f_UINT64);
        case P::FieldTypeId::INT64: return fnum(n, v.value.f_INT64);
        case P::FieldTypeId::STRING: return fld(n, "s", bytes(v.value.f_STRING));
        case P::FieldTypeId::STRUCT: return v.value.f_EVENT ? sub(n, v.value.f_EVENT->get_klass()->get_name(), fields(*v.value.f_EVENT)) : fld(n, "null", "[]");
        default: return fld(n, "?", "[]");
    }
}
inline std::string fields(const P::Event& e) {
    std::string r = "["; bool first = true;
    for (auto& v : e.get_values()) { if (!first) r += ","; first = false; r += value(v.first, v.second); }
    return r + "]";
}
inline std::string report(const P::Event& e) {
    return J("Ev").raw("k", num((uint32_t)e.get_klass()->get_id())).raw("kn", bytes(e.get_klass()->get_name())).raw("ts", num((uint64_t)e.get_timestamp())).raw("f", fields(e));
}
// the classes the register knows, by every way to ask
inline std::string classes(const P::KlassRegister& reg) {
    std::string r = "[";
    for (auto& k : reg.get_klasses()) {
        auto a = reg.get_klass((HT_EventKlassId)k.first); auto id = reg.get_klass_id(k.second->get_name()); auto b = reg.get_klass(k.second->get_name());
        bool same = a == k.second && k.second->get_id() == k.first && reg.klass_exists(k.first) && b && b->get_name() == k.second->get_name() && id == b->get_id();
        std::string f;
        for (auto& x : k.second->get_fields()) {
            static const char* ty[] = {"u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "p", "s", "e"};
            auto y = k.second->get_field(x->get_name().c_str(), false);
            f += (f.empty() ? "" : ",") + ("{\"n\":" + bytes(x->get_name()) + ",\"t\":" + bytes(x->get_type_name()) + ",\"ty\":\"" + (y.get() == x.get() ? ty[(int)x->get_type_id()] : "?") + "\"}");
        }
        if (r.size() > 1) r += ",";
        r += "{\"k\":" + num((uint32_t)k.first) + ",\"kn\":" + bytes(k.second->get_name()) + ",\"same\":" + (same ? "true" : "false") + ",\"f\":[" + f + "]}";
    }
    return r + "]";
}
// independent writer
struct Out {
    std::string b; bool big = false;
    void n(uint64_t v, int size) { for (int i = 0; i < size; i++) b += (char)(v >> (8 * (big ? size - 1 - i : i))); }
    void s(const std::string& x) { b += x; b += '\0'; }
    void head(uint32_t k, uint64_t ts, uint64_t id) { n(k, 4); n(ts, 8); n(id, 8); }
    void endian(uint8_t v) { head(0, 0, 0); n(v, 1); }
    void klass(uint32_t id, const std::string& name, int count) { head(2, 7, 7); n(id, 4); s(name); n(count, 1); }
    void field(uint32_t id, const std::string& type, const std::string& name, uint64_t size, int kind) { head(3, 8, 8); n(id, 4); s(type); s(name); n(size, 8); n(kind, 1); }
};
}
