// The converters of hawktracer-converter: random valid streams to chrome traces
// (mode chrome), families of nested scopes to call graphs (mode graph); some
// cases go through the command line tool itself.
#include "seq.hpp"
#include "wire.hpp"
#include "client/chrome_trace_converter.hpp"
#include "client/callgrind_converter.hpp"
#include <dirent.h>
#include <fstream>
#include <map>
#include <set>
using namespace seq;
using namespace wire;
namespace C = HawkTracer::client;

static std::string g_dir;   // scratch directory of the case
static const char* tool() { return CONVERTER; }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
static void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f.write(s.data(), s.size()); }
static void open_dir() {
    const char* s = getenv("SCRATCH");
    std::string t = std::string(s ? s : "/tmp") + "/conv.XXXXXX";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) _exit(97);
    g_dir = b.data();
}
static std::vector<std::string> entries() { std::vector<std::string> r; if (DIR* d = opendir(g_dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(d); } return r; }
static void close_dir() { for (auto& n : entries()) unlink((g_dir + "/" + n).c_str()); rmdir(g_dir.c_str()); }
static uint64_t val() { switch (rnd(7)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << rnd(64); case 3: return rnd(300); case 4: return 0x8000000000000000ull >> (8 * rnd(8)); case 5: return 990 + rnd(20); default: return rnd(); } }
static std::string uchar() { // one character, UTF-8
    switch (rnd(10)) {
        case 0: return "\""; case 1: return "\\"; case 2: return std::string(1, (char)(1 + rnd(31)));
        case 3: { static const char* w[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\xc2\x80", "\xef\xbf\xbf"}; return w[rnd(6)]; }
        case 4: { static const char* w[] = {"/", "{", "}", "[", "]", ",", ":", "'", "%", "\\u0041", "<", "n"}; return w[rnd(12)]; }
        default: return std::string(1, (char)(' ' + rnd(95)));
    }
}
static std::string text() { size_t n = chance(12) ? 0 : chance(85) ? rnd(12) : rnd(120); std::string s; bool odd = chance(50); for (size_t i = 0; i < n; i++) s += odd ? uchar() : std::string(1, (char)('a' + rnd(26))); return s; }
static std::string word() { std::string s; for (int i = 1 + rnd(8); i > 0; i--) s += chance(80) ? std::string(1, (char)('a' + rnd(26))) : std::string(1, "\"\\:;<>[]{}/"[rnd(11)]); return s; }

static bool feed(C::Converter& c, const std::string& b, const std::string& out, const std::string& maps, bool twice) {
    P::KlassRegister reg;
    if (!c.init(out)) return false;
    if (!maps.empty()) c.set_tracepoint_map(maps);
    P::ProtocolReader r(&reg, std::unique_ptr<P::Stream>(new MemStream(b)), true);
    r.register_events_listener([&](const P::Event& e) { c.process_event(e); });
    r.start(); r.wait_for_complete(); r.stop();
    c.stop();
    if (twice) c.stop();
    return true;
}
static bool by_tool(const std::string& b, const char* format, const std::string& out, const std::string& maps) {
    std::string src = g_dir + "/src";
    spit(src, b);
    std::vector<std::string> a = {tool(), "--source", src, "--output", out};
    if (strcmp(format, "chrome-tracing") || chance(50)) { a.push_back("--format"); a.push_back(format); }
    if (!maps.empty()) { a.push_back("--map"); a.push_back(maps); }
    std::vector<char*> v; for (auto& s : a) v.push_back(&s[0]); v.push_back(nullptr);
    pid_t p = fork();
    if (p == 0) { int fd = open("/dev/null", O_RDWR); dup2(fd, 0); dup2(fd, 1); dup2(fd, 2); execv(tool(), v.data()); _exit(127); }
    int st = 0; waitpid(p, &st, 0);
    unlink(src.c_str());
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static std::string out_name() { std::string s = g_dir + "/out-"; size_t n = chance(80) ? 3 : 60 + rnd(140); for (size_t i = 0; i < n; i++) s += (char)('a' + rnd(26)); return s; }
static bool convert(bool chrome, const std::string& b, const std::string& out, const std::string& maps) {
    if (chance(8)) return by_tool(b, chrome ? "chrome-tracing" : "callgrind", out, maps);
    std::unique_ptr<C::Converter> c;
    if (chrome) c.reset(new C::ChromeTraceConverter()); else c.reset(new C::CallgrindConverter());
    return feed(*c, b, out, maps, chance(20));
}
// -------------------------------------------------------------------- chrome
struct F { std::string n; int kind, size; };
struct K { uint32_t id; std::string n; std::vector<F> f; int parent; };
static void body(Out& o, const std::vector<K>& ks, int k, const std::vector<uint64_t>& ids) {
    if (ks[k].parent > 0) body(o, ks, ks[k].parent, ids);
    for (auto& f : ks[k].f) {
        if (f.kind == 2) o.s(text());
        else if (f.n == "label" || f.n == "identifier") o.n(chance(80) ? ids[rnd(ids.size())] : val(), 8);
        else o.n(val(), f.size);
    }
}
static void chrome_case() {
    open_dir();
    Out o; o.big = rnd(2); if (o.big || chance(85)) o.endian(o.big);
    std::vector<uint64_t> ids; for (int i = 2 + rnd(4); i > 0; i--) ids.push_back(val());
    // loaded maps
    std::string maps, list; std::map<uint64_t, std::string> loaded;
    if (chance(40)) {
        int n = 1 + rnd(3);
        for (int i = 0; i < n; i++) {
            std::string p = g_dir + "/map" + std::to_string(i);
            if (chance(85)) { std::string t; int m = rnd(5); for (int j = 0; j < m; j++) { uint64_t id = ids[rnd(ids.size())]; std::string w = word(); t += (chance(50) ? "default " : "a.b ") + w + (chance(70) ? " " : "\t") + std::to_string(id) + (j + 1 < m || chance(80) ? "\n" : ""); loaded[id] = w; } spit(p, t); }
            maps += (i ? "," : "") + p;
        }
    }
    for (auto& m : loaded) list += (list.empty() ? "" : ",") + ("{\"id\":" + num(m.first) + ",\"label\":" + bytes(m.second) + "}");
    std::vector<K> ks; ks.push_back(K{1, "HT_Event", {}, -1});
    if (chance(30)) { o.klass(0, "HT_EndiannessInfoEvent", 2); o.field(0, "HT_Event", "base", 24, 1); o.field(0, "uint8_t", "endianness", 1, 99); }
    auto describe = [&](const K& k) { o.klass(k.id, k.n, k.f.size() + 1); o.field(k.id, ks[k.parent].n, "base", 24, 1); for (auto& f : k.f) o.field(k.id, f.kind == 2 ? "const char*" : "x", f.n, f.size, f.kind); ks.push_back(k); };
    int mapping = -1;
    auto events = [&](int n) { for (int i = 0; i < n; i++) {
        int k = mapping > 0 && chance(30) ? mapping : rnd(ks.size());
        o.head(ks[k].id, val(), val()); if (k) body(o, ks, k, ids); } };
    int nk = 1 + rnd(5), at = chance(70) ? (int)rnd(nk) : -1;
    int base = 0;
    for (int i = 0; i < nk; i++) {
        if (i == at) { describe(K{90, "HT_StringMappingEvent", {F{"identifier", 99, 8}, F{"label", 2, 8}}, 0}); mapping = ks.size() - 1; if (chance(50)) events(rnd(4)); }
        K k; k.id = 4 + i; k.n = "K" + std::to_string(i); k.parent = 0;
        if (base == 0 && chance(40)) { k.n = "HT_CallstackBaseEvent"; k.f = {F{"duration", 99, 8}, F{"thread_id", 99, 4}}; describe(k); base = ks.size() - 1; continue; }
        bool inherits = base && chance(60); if (inherits) k.parent = base;
        int form = rnd(10);
        if (form < 4) k.f.push_back(F{"label", 2, 8}); else if (form < 7) k.f.push_back(F{"label", 99, 8});
        if (chance(20)) { if (chance(50)) k.f.push_back(F{"name", 2, 8}); else k.f.push_back(F{"name", 99, 4}); }
        if (!inherits && chance(30)) k.f.push_back(F{"duration", 99, 8});
        if (!inherits && chance(30)) k.f.push_back(F{"thread_id", 99, 4});
        int nf = rnd(5); static const int sz[] = {1, 2, 4, 8}; std::set<std::string> used;
        for (int j = 0; j < nf; j++) {
            std::string n = "f" + std::to_string(j); if (chance(25)) n = text() + std::to_string(j); if (!used.insert(n).second) continue;
            if (chance(35)) k.f.push_back(F{n, 2, 8}); else k.f.push_back(F{n, chance(50) ? 3 : 99, sz[rnd(4)]});
        }
        for (int j = k.f.size() - 1; j > 0; j--) std::swap(k.f[j], k.f[rnd(j + 1)]);
        describe(k);
        if (chance(50)) events(rnd(4));
    }
    events(rnd(10));
    std::string b = o.b; if (chance(15)) b.resize(rnd(b.size() + 1));
    std::string out = out_name();
    bool ok = convert(true, b, out, maps);
    if (!ok) emit(J("Failed"));
    else emit(J("Chrome").raw("b", bytes(b)).raw("map", "[" + list + "]").raw("out", bytes(slurp(out))));
    close_dir();
}
// --------------------------------------------------------------------- graph
struct Scope { uint32_t t; std::string l; uint64_t s, d; };
static int g_ties;
static void grow(std::vector<Scope>& v, uint32_t t, uint64_t a, uint64_t b, int depth, const std::vector<std::string>& labels, size_t max) {
    // scopes inside [a, b]
    uint64_t at = a;
    int n = depth > 5 ? 0 : rnd(4) + (depth == 0 ? 1 : 0);
    for (int i = 0; i < n && v.size() < max; i++) {
        uint64_t room = b - at;
        uint64_t gap = chance(45) ? 0 : rnd(room / 3 + 1);
        uint64_t s = at + gap, left = b - s;
        uint64_t d = chance(15) ? left : chance(20) ? 0 : rnd(left + 1);
        // few scopes whose place is open: zero durations, the same interval as the enclosing scope
        bool same = depth > 0 && s == a && d == b - a, point = d == 0;
        if (same || point) { if (g_ties >= 2) { if (left < 2) continue; d = 1 + rnd(left - 1); if (depth > 0 && s == a && d == b - a) continue; if (d == 0) continue; } else g_ties++; }
        v.push_back(Scope{t, labels[rnd(labels.size())], s, d});
        grow(v, t, s, s + d, depth + 1, labels, max);
        at = s + d;
    }
}
static bool parse_graph(const std::string& text, uint64_t scale, std::string& js_out) {
    // strict reader of the written form: fn=, "1 self", { cfn=, calls=n 1, "1 total" }
    std::vector<std::string> ls; size_t p = 0;
    while (p < text.size()) { size_t q = text.find('\n', p); if (q == std::string::npos) return false; ls.push_back(text.substr(p, q - p)); p = q + 1; }
    if (ls.empty() || ls[0] != "# callgrind format") return false;
    size_t i = 1; std::string thread, fns; bool events = false;
    auto cost = [&](const std::string& l, std::string& out) { if (l.compare(0, 2, "1 ") || l.size() < 3 || l.size() > 22) return false; for (size_t j = 2; j < l.size(); j++) if (l[j] < '0' || l[j] > '9') return false; uint64_t x = strtoull(l.c_str() + 2, nullptr, 10); if (x % scale || x / scale > 1000000000u) return false; out = std::to_string(x / scale); return true; };
    for (; i < ls.size() && ls[i].compare(0, 3, "fn="); i++) {
        if (ls[i].empty()) continue;
        if (ls[i].compare(0, 8, "thread: ") == 0) thread = ls[i].substr(8);
        else if (ls[i].compare(0, 8, "events: ") == 0) events = true;
        else if (ls[i][0] != '#') return false;
    }
    if (!events) return false;
    while (i < ls.size()) {
        if (ls[i].empty()) { i++; continue; }
        if (ls[i].compare(0, 3, "fn=")) return false;
        std::string fn = ls[i].substr(3), self, calls; i++;
        if (i >= ls.size() || !cost(ls[i], self)) return false;
        i++;
        while (i < ls.size() && ls[i].compare(0, 4, "cfn=") == 0) {
            std::string cfn = ls[i].substr(4), tot; i++;
            if (i + 1 >= ls.size() || ls[i].compare(0, 6, "calls=")) return false;
            int n = 0, pos = 0; if (sscanf(ls[i].c_str() + 6, "%d %d", &n, &pos) != 2) return false; i++;
            if (!cost(ls[i], tot)) return false; i++;
            calls += (calls.empty() ? "" : ",") + ("{\"to\":" + js(cfn) + ",\"n\":" + std::to_string(n) + ",\"total\":" + tot + "}");
        }
        fns += (fns.empty() ? "" : ",") + ("{\"fn\":" + js(fn) + ",\"self\":" + self + ",\"calls\":[" + calls + "]}");
    }
    js_out = "\"thread\":" + js(thread) + ",\"fns\":[" + fns + "]";
    return true;
}
static void graph_case() {
    open_dir();
    static const uint64_t scales[] = {1, 1, 1000, 1000003, 1ull << 32, (1ull << 33) + 7, 1ull << 40};
    uint64_t scale = scales[rnd(7)], off = chance(50) ? 0 : rnd(1ull << 62);
    std::vector<std::string> labels; static const char* fixed[] = {"f", "g", "main", "operator new", "a'b", "x()", "std::map<int, char>::find", "cfn=g", "1 5"};
    for (int i = 1 + rnd(4); i > 0; i--) labels.push_back(chance(60) ? std::string(1, (char)('a' + rnd(26))) : fixed[rnd(9)]);
    std::vector<Scope> v;
    int nt = 1 + rnd(3); uint64_t span = 4 + rnd(chance(50) ? 12 : 300);
    std::vector<uint32_t> tids; for (int i = 0; i < nt; i++) { uint32_t t = chance(70) ? 1000 + i : (uint32_t)rnd(); if (chance(10)) t = 0; if (std::find(tids.begin(), tids.end(), t) == tids.end()) tids.push_back(t); }
    for (uint32_t t : tids) { g_ties = 0; std::vector<Scope> w; grow(w, t, 0, span, 0, labels, 12); v.insert(v.end(), w.begin(), w.end()); }
    if (chance(30)) for (int j = v.size() - 1; j > 0; j--) std::swap(v[j], v[rnd(j + 1)]);
    else std::stable_sort(v.begin(), v.end(), [](const Scope& a, const Scope& b) { return a.s + a.d < b.s + b.d; });
    Out o; o.big = rnd(2); o.endian(o.big);
    o.klass(4, "HT_CallstackBaseEvent", 3); o.field(4, "HT_Event", "base", 24, 1); o.field(4, "HT_DurationNs", "duration", 8, 99); o.field(4, "HT_ThreadId", "thread_id", 4, 99);
    o.klass(5, "HT_CallstackStringEvent", 2); o.field(5, "HT_CallstackBaseEvent", "base", 40, 1); o.field(5, "const char*", "label", 8, 2);
    o.klass(6, "HT_CallstackIntEvent", 2); o.field(6, "HT_CallstackBaseEvent", "base", 40, 1); o.field(6, "HT_CallstackEventLabel", "label", 8, 99);
    o.klass(7, "HT_StringMappingEvent", 3); o.field(7, "HT_Event", "base", 24, 1); o.field(7, "uint64_t", "identifier", 8, 99); o.field(7, "const char*", "label", 8, 2);
    o.klass(8, "Noise", 1); o.field(8, "HT_CallstackBaseEvent", "base", 40, 1);
    std::map<std::string, uint64_t> ids; std::string list;
    for (size_t i = 0; i < v.size(); i++) {
        const Scope& s = v[i];
        if (chance(5)) { o.head(8, rnd(1000), i); o.n(5, 8); o.n(chance(50) ? s.t : 4711, 4); }
        bool mapped = chance(25);
        if (mapped && !ids.count(s.l)) { uint64_t id = rnd(); ids[s.l] = id; o.head(7, 0, i); o.n(id, 8); o.s(s.l); }
        o.head(mapped ? 6 : 5, off + s.s * scale, i); o.n(s.d * scale, 8); o.n(s.t, 4);
        if (mapped) o.n(ids[s.l], 8); else o.s(s.l);
        list += (list.empty() ? "" : ",") + ("{\"t\":" + js(std::to_string(s.t)) + ",\"l\":" + js(s.l) + ",\"s\":" + std::to_string(s.s) + ",\"d\":" + std::to_string(s.d) + "}");
    }
    std::string out = out_name(), files; bool bad = false;
    if (!convert(false, o.b, out, "")) emit(J("Failed"));
    else {
        std::string stem = out.substr(g_dir.size() + 1) + ".";
        for (auto& n : entries()) {
            std::string g;
            if (n.compare(0, stem.size(), stem) == 0 && parse_graph(slurp(g_dir + "/" + n), scale, g)) files += (files.empty() ? "" : ",") + ("{\"name\":" + js(n.substr(stem.size())) + "," + g + "}");
            else { bad = true; emit(J("BadFile").t("name", n).t("text", slurp(g_dir + "/" + n))); }
        }
        if (!bad) emit(J("Graph").raw("scopes", "[" + list + "]").raw("files", "[" + files + "]"));
    }
    close_dir();
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    seq::run(a, false, [&](uint64_t) { if (a.mode == "graph") graph_case(); else chrome_case(); });
}
