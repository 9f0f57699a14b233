// Events with known bytes, and the content of a dump file in terms of them.
#pragma once
#include "klasses.hpp"
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
namespace dump {
using namespace kl;
struct Ev { std::vector<char> mem; std::string s1, s2; std::string ser; HT_Event* e() { return (HT_Event*)mem.data(); } };
struct Book {
    std::map<std::string, int> byb; std::set<size_t> lens; std::map<int, std::string> all; int n = 0;
    std::map<int, std::string> meta;   // metadata of each dump as last reported in full
    std::map<int, size_t> ref;         // length of the metadata expected
    std::unique_ptr<Ev> make(const std::function<uint64_t(uint64_t)>& rnd, int maxlen, bool own) {
        std::unique_ptr<Ev> v(new Ev); int k = ++n;
        auto str = [&] { std::string s; size_t l = rnd(4) ? rnd(12) : rnd(maxlen + 1); for (size_t i = 0; i < l; i++) s += (char)(1 + rnd(255)); return s; };
        v->s1 = str(); v->s2 = str();
        auto put = [&](auto&& x) { v->mem.assign((char*)&x, (char*)&x + sizeof x); };
        switch (rnd(own ? 7 : 4)) {
            case 0: { HT_Event x; memset(&x, 0, sizeof x); x.klass = HT_EVENT_KLASS_GET(HT_Event); put(x); break; }
            case 1: { HT_CallstackStringEvent x; memset(&x, 0, sizeof x); x.base.base.klass = HT_EVENT_KLASS_GET(HT_CallstackStringEvent); x.label = v->s1.c_str(); x.base.duration = rnd(~0ull); put(x); break; }
            case 2: { HT_StringMappingEvent x; memset(&x, 0, sizeof x); x.base.klass = HT_EVENT_KLASS_GET(HT_StringMappingEvent); x.identifier = rnd(~0ull); x.label = v->s1.c_str(); put(x); break; }
            case 3: { HT_CallstackIntEvent x; memset(&x, 0, sizeof x); x.base.base.klass = HT_EVENT_KLASS_GET(HT_CallstackIntEvent); x.label = rnd(~0ull); put(x); break; }
            case 4: { VStr x; memset(&x, 0, sizeof x); x.base.klass = HT_EVENT_KLASS_GET(VStr); x.s1 = v->s1.c_str(); x.s2 = v->s2.c_str(); put(x); break; }
            case 5: { VBig x; memset(&x, 0, sizeof x); x.base.klass = HT_EVENT_KLASS_GET(VBig); x.f3 = rnd(~0ull); put(x); break; }
            default: { VInts x; memset(&x, 0, sizeof x); x.base.klass = HT_EVENT_KLASS_GET(VInts); x.i64 = rnd(~0ull); x.u16 = rnd(65536); put(x); break; }
        }
        v->e()->id = k; v->e()->timestamp = 77000000 + k;
        v->ser.resize(v->e()->klass->get_size(v->e())); v->e()->klass->serialize(v->e(), (HT_Byte*)&v->ser[0]);
        byb[v->ser] = k; lens.insert(v->ser.size()); all[k] = v->ser;
        return v;
    }
    // e: See (with call c) or SeeEnd
    std::string see(const char* e, int d, int c, const std::string& path) {
        std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
        std::string m = s.substr(0, std::min(ref[d], s.size()));
        bool same = meta.count(d) && meta[d] == m; meta[d] = m;
        std::vector<long long> evs, parts; size_t o = m.size(); std::set<int> seen;
        while (o < s.size()) {
            int k = 0; size_t len = 0;
            for (size_t l : lens) { if (o + l > s.size()) break; auto it = byb.find(s.substr(o, l)); if (it != byb.end()) { k = it->second; len = l; break; } }
            if (!k) break;
            evs.push_back(k); seen.insert(k); o += len;
        }
        if (o < s.size()) {
            std::string r = s.substr(o);
            for (auto& x : all) if (!seen.count(x.first) && x.second.size() > r.size() && x.second.compare(0, r.size(), r) == 0) parts.push_back(x.first);
            if (parts.empty()) parts.push_back(-1);
        }
        return J(e).i("d", d).i("c", c).b("same", same).b("big", big_endian()).raw("b", same ? "[]" : bytes(m)).list("evs", evs).list("part", parts);
    }
    // what a client has received: metadata (of length len), events, perhaps a part of one more
    std::string seen(J line, int d, const std::string& s, size_t len) {
        std::string m = s.substr(0, len);
        std::vector<long long> evs; size_t o = len;
        while (o < s.size()) {
            int k = 0; size_t n = 0;
            for (size_t l : lens) { if (o + l > s.size()) break; auto it = byb.find(s.substr(o, l)); if (it != byb.end()) { k = it->second; n = l; break; } }
            if (!k) break;
            evs.push_back(k); o += n;
        }
        std::string tail = "none";
        if (o < s.size()) { tail = "junk"; std::string r = s.substr(o); for (auto& x : all) if (x.second.size() > r.size() && x.second.compare(0, r.size(), r) == 0) tail = "part"; }
        return line.b("same", false).b("big", big_endian()).raw("b", bytes(m)).list("evs", evs).t("tail", tail);
    }
    void reference(int d) { std::string b; ht_timeline_listener_push_metadata(collect, &b, HT_TRUE); ref[d] = b.size(); }
};
inline std::string batch(const std::vector<std::unique_ptr<Ev>>& v, bool ser) { std::string r; for (auto& x : v) { if (ser) r += x->ser; else r.append(x->mem.data(), x->mem.size()); } return r; }
inline std::vector<long long> nums(const std::vector<std::unique_ptr<Ev>>& v) { std::vector<long long> r; for (auto& x : v) r.push_back(x->e()->id); return r; }
inline std::string klass_line(const C& c) { return J("Klass").raw("n", bytes(c.n)).raw("f", jf(c.f)); }
}
