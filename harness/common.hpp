// Small JSON/trace helpers shared by the drivers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

inline std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string r; r.reserve(2 * n);
    for (size_t i = 0; i < n; i++) { uint8_t c = ((const uint8_t*)p)[i]; r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
// JSON string of arbitrary bytes: plain ASCII stays, everything else becomes %XX (so the text is injective and pure ASCII)
inline std::string js(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\' || c == '%') { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += (char)c;
    }
    return r + "\"";
}
struct J {   // builds {"e":"Name",...}
    std::string s;
    explicit J(const char* e) { s = std::string("{\"e\":\"") + e + "\""; }
    J& i(const char* k, long long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); return *this; }
    J& b(const char* k, bool v) { s += std::string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
    J& t(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":" + js(v); return *this; }
    J& raw(const char* k, const std::string& v) { s += std::string(",\"") + k + "\":" + v; return *this; }
    template <class V> J& list(const char* k, const V& v) { s += std::string(",\"") + k + "\":["; bool f = true; for (auto& x : v) { if (!f) s += ","; f = false; s += std::to_string(x); } s += "]"; return *this; }
    template <class V> J& strs(const char* k, const V& v) { s += std::string(",\"") + k + "\":["; bool f = true; for (auto& x : v) { if (!f) s += ","; f = false; s += js(x); } s += "]"; return *this; }
    std::string str() const { return s + "}"; }
    operator std::string() const { return str(); }
};
// wide integers travel as decimal strings (TLC integers have 32 bits)
inline std::string u64s(uint64_t v) { return std::to_string(v); }
struct Args {   // --out FILE --first N --count N --seed N [--script FILE]
    std::string out, script; uint64_t first = 0, count = 1, seed = 1; std::string mode;
    Args(int argc, char** argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--out") out = v; else if (k == "--first") first = std::stoull(v); else if (k == "--count") count = std::stoull(v);
            else if (k == "--seed") seed = std::stoull(v); else if (k == "--script") script = v; else if (k == "--mode") mode = v;
        }
    }
    uint64_t case_seed(uint64_t n) const { return seed * 1000003ull + n; }
};
