// The label generator over random source trees (odd cases) and the client's
// label map over histories of loaded maps and mappings of a stream.
#include "seq.hpp"
#include "wire.hpp"
#include <client/tracepoint_map.hpp>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <ftw.h>
using namespace seq;
namespace C = HawkTracer::client;
static std::string by(const std::string& s) { return wire::bytes(s); }
static FILE *g_in, *g_out; static std::string g_dir;
static std::string ask(const std::string& line) { fprintf(g_in, "%s\n", line.c_str()); fflush(g_in); char b[200]; if (!fgets(b, sizeof b, g_out)) return "gone"; b[strcspn(b, "\n")] = 0; return b; }
static void start_server() {
    int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(97);
    if (fork() == 0) { dup2(a[0], 0); dup2(b[1], 1); close(a[1]); close(b[0]); unsetenv("LD_PRELOAD");
        std::string g = std::string(getenv("REPO")) + "/tools/generate_tracepoint_labels.py"; execlp("python3", "python3", "-B", HARNESS "/gen_server.py", g.c_str(), (char*)0); _exit(96); }
    close(a[0]); close(b[1]); g_in = fdopen(a[1], "w"); g_out = fdopen(b[0], "r");
}
static std::string ident(int pool) {
    static const char* fix[] = {"x", "_", "a1", "main_loop", "ok_1", "_ok_2", "Load", "zz9", "A", "veryLongLabelNameWithNumbers0123456789_and_more", "HT_TP_GLOBAL_SCOPED_INT", "label"};
    if (chance(60)) return fix[rnd(12)];
    return std::string(1, "abcxyz_QRS"[rnd(10)]) + std::to_string(rnd(pool));
}
static std::string sp(int max) { std::string s; for (int n = chance(60) ? 0 : rnd(max + 1); n > 0; n--) s += " \t"[rnd(2)]; return s; }
static std::string line(const std::string& cw, const std::string& lw) {
    std::string id = ident(40); int r = rnd(100);
    if (r < 38) return sp(4) + cw + sp(2) + "(" + id + ")" + sp(2) + ";" + sp(2);
    if (r < 62) return sp(4) + lw + " " + sp(3) + id + sp(2);
    switch (rnd(22)) {
    case 0: return "// " + cw + "(" + id + ");"; case 1: return cw + "(" + id + ")"; case 2: return cw + "(\"" + id + "\");"; case 3: return cw + "();";
    case 4: return cw + "(1" + id + ");"; case 5: return cw + "X(" + id + ");"; case 6: return "x" + cw + "(" + id + ");"; case 7: return cw + "(" + id + ");;";
    case 8: return cw + "(" + id + "-" + id + ");"; case 9: return "#define " + cw + "(" + id + ");"; case 10: return lw + id; case 11: return "-- " + lw + " " + id;
    case 12: return lw + " " + id + " " + id; case 13: return lw + " 9" + id; case 14: return lw; case 15: return ""; case 16: return "int main() {"; case 17: return "caf\xe9 \xff\xfe";
    case 18: return "\xc3\xa9t\xc3\xa9"; case 19: return lw + " "; case 20: return "HT_TP_GLOBAL_SCOPED_INT"; default: return "  local t = 1"; }
}
struct FileI { std::string ext; std::vector<std::string> lines; };
static std::vector<FileI> tree(const std::string& root, const std::string& cw, const std::string& lw) {
    std::vector<FileI> r; mkdir(root.c_str(), 0700);
    std::vector<std::string> dirs{root};
    for (int i = rnd(4); i > 0; i--) { std::string d = dirs[rnd(dirs.size())] + "/d" + std::to_string(i) + (chance(20) ? "-x" : ""); mkdir(d.c_str(), 0700); dirs.push_back(d); }
    static const char* ex[] = {"c", "cpp", "h", "hpp", "lua", "txt", "", "py", "inl", "md"};
    for (int i = rnd(6); i > 0; i--) {
        FileI f; f.ext = ex[chance(75) ? rnd(5) : rnd(10)];
        std::string p = dirs[rnd(dirs.size())] + "/" + (chance(15) ? "cpp" : chance(10) ? "lua" : "f") + std::to_string(i) + (f.ext.empty() ? "" : "." + f.ext);
        for (int k = rnd(8); k > 0; k--) f.lines.push_back(line(cw, lw));
        std::ofstream o(p, std::ios::binary); const char* nl = chance(85) ? "\n" : "\r\n";
        for (size_t k = 0; k < f.lines.size(); k++) { o << f.lines[k]; if (k + 1 < f.lines.size() || chance(80)) o << nl; }
        r.push_back(f);
    }
    return r;
}
static std::string files_json(const std::vector<FileI>& fs) {
    std::string r = "["; for (auto& f : fs) { r += (r.size() > 1 ? "," : "") + ("{\"ext\":" + js(f.ext)) + ",\"lines\":["; bool a = true; for (auto& x : f.lines) { r += (a ? "" : ",") + by(x); a = false; } r += "]}"; } return r + "]";
}
typedef std::vector<std::pair<std::string, std::string>> Pairs;
static std::string num(const std::string& s) { bool ok = !s.empty() && s.size() < 9; for (char c : s) if (!isdigit(c)) ok = false; return ok ? s : "-1"; }
static std::string pairs_json(const Pairs& p) { std::string r = "["; for (auto& x : p) r += (r.size() > 1 ? "," : "") + ("{\"n\":" + by(x.first)) + ",\"v\":" + num(x.second) + "}"; return r + "]"; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; size_t a = 0, p; if (s.empty()) return r; while ((p = s.find(c, a)) != std::string::npos) { r.push_back(s.substr(a, p - a)); a = p + 1; } r.push_back(s.substr(a)); return r; }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static int rmf(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static std::string qj(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '\\' || c == '"') r += '\\'; r += c; } return r + "\""; }
static void asked(C::TracepointMap& m, uint64_t v) { auto i = m.get_label_info(v); emit(J("Asked").t("v", u64s(v)).t("n", i.label).t("c", i.category)); }
static void generator() {
    std::string d = g_dir + "/t"; mkdir(d.c_str(), 0700);
    std::string cw = "HT_TP_GLOBAL_SCOPED_INT", lw = "--@TracepointStart", cext = "\"c\",\"cpp\",\"h\",\"hpp\"", lext = "\"lua\"";
    std::vector<std::string> av;
    if (chance(12)) { cw = "MYTP"; av.push_back("--cpp-regex"); av.push_back("^\\s*MYTP\\s*\\(([_A-Za-z][A-Za-z_0-9]*)\\)\\s*;\\s*$"); }
    if (chance(12)) { lw = "--#"; av.push_back("--lua-regex"); av.push_back("^\\s*--#\\s+([_A-Za-z][A-Za-z_0-9]*)\\s*$"); }
    if (chance(12)) { cext = "\"inl\""; av.push_back("--search-cpp-regex"); av.push_back(".*\\.inl$"); }
    if (chance(12)) { lext = "\"txt\""; av.push_back("--search-lua-regex"); av.push_back(".*\\.txt$"); }
    auto fc = tree(d + "/a", cw, lw); std::string ld = "/a"; auto fl = fc;
    if (chance(40)) { fl = tree(d + "/b", cw, lw); ld = "/b"; }
    bool oc = chance(85), ol = chance(85), om = chance(90);
    bool in = chance(20);   // the outputs lie in the searched tree
    std::string pc = d + (in ? "/a/labels.h" : "/labels.h"), pl = d + (in ? "/a/labels.lua" : "/labels.lua"), pm = d + (in ? "/a/map.txt" : "/map.txt");
    int rounds = in ? 2 : 1;
    av.insert(av.end(), {"--search-cpp-dir", d + "/a", "--search-lua-dir", d + ld});
    if (oc) av.insert(av.begin(), {"--out-cpp-file", pc});
    if (ol) av.insert(av.begin(), {"--out-lua-file", pl});
    if (om) av.insert(av.end(), {"--output-map", pm});
    std::string rq = "["; for (auto& x : av) rq += (rq.size() > 1 ? "," : "") + qj(x);
    for (; rounds > 0; rounds--) {
        std::string r = ask(rq + "]");
        Pairs cp, lp, mc, ml; int other = 0;
        for (auto& x : split(slurp(pc), '\n')) { auto w = split(x, ' '); const std::string pre = "hawktracer_autogen_tracepoint_label_"; if (w.size() == 3 && w[0] == "#define" && w[1].compare(0, pre.size(), pre) == 0) cp.push_back({w[1].substr(pre.size()), w[2]}); }
        std::string ls = slurp(pl); if (ls.compare(0, 6, "local ") == 0) { ls = ls.substr(6); while (!ls.empty() && ls.back() == '\n') ls.pop_back(); size_t e = ls.find('=');
            if (e != std::string::npos) { auto tr = [](std::string s) { while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
                auto a = split(tr(ls.substr(0, e)), ','), b = split(tr(ls.substr(e + 1)), ','); for (size_t i = 0; i < std::max(a.size(), b.size()); i++) lp.push_back({i < a.size() ? tr(a[i]) : "?", i < b.size() ? tr(b[i]) : "-1"}); } }
        for (auto& x : split(slurp(pm), '\n')) { if (x.empty()) continue; auto w = split(x, ' '); if (w.size() != 3) other++; else if (w[0] == "cpp") mc.push_back({w[1], w[2]}); else if (w[0] == "lua") ml.push_back({w[1], w[2]}); else other++; }
        auto lang = [&](bool out, const std::vector<FileI>& f, const std::string& ex, const std::string& w, const Pairs& p) { return std::string("{\"out\":") + (out ? "true" : "false") + ",\"files\":" + files_json(f) + ",\"exts\":[" + ex + "],\"word\":" + by(w) + ",\"pairs\":" + pairs_json(p) + "}"; };
        if (r == "ok") emit(J("Generated").raw("cpp", lang(oc, fc, cext, cw, cp)).raw("lua", lang(ol, fl, lext, lw, lp)).b("map", om).raw("mapcpp", pairs_json(mc)).raw("maplua", pairs_json(ml)).i("other", other));
        else emit(J("Failed").t("why", r).raw("cpp", lang(oc, fc, cext, cw, cp)));
        if (om && rounds == 1 && r == "ok") {   // and the client understands the map
            std::string es; for (auto* p : {&mc, &ml}) for (auto& x : *p) es += (es.empty() ? "" : ",") + ("{\"c\":\"" + std::string(p == &mc ? "cpp" : "lua")) + "\",\"n\":" + js(x.first) + ",\"v\":" + js(x.second) + "}";
            C::TracepointMap m; bool ok = m.load_map(pm); emit(J("Load").b("ok", ok).raw("files", "[{\"there\":true,\"es\":[" + es + "]}]"));
            for (uint64_t v = 0; v < mc.size() + ml.size() + 2; v++) asked(m, v);
        }
    }
    nftw(d.c_str(), rmf, 16, FTW_DEPTH | FTW_PHYS);
}
static uint64_t number() { return chance(80) ? rnd(9) : chance(50) ? rnd() : ~0ull - rnd(3); }
static void client() {
    C::TracepointMap m; int seq = 0; bool mapped = false;
    auto make = [&](std::string& es) -> std::string {
        std::string p = g_dir + "/m" + std::to_string(seq++) + (chance(15) ? " with blanks.map" : "");
        if (chance(12)) { es = "{\"there\":false,\"es\":[]}"; return chance(15) ? "" : p + ".missing"; }
        std::ofstream o(p, std::ios::binary); int n = chance(10) ? 0 : rnd(8); std::string r;
        for (int i = 0; i < n; i++) { static const char* cs[] = {"cpp", "lua", "native", "default", "x"}; std::string c = cs[rnd(5)], lb = chance(80) ? "L" + std::to_string(rnd(30)) : chance(50) ? "with::colons<int>(a,b)" : "7"; uint64_t v = number();
            o << c << (chance(90) ? " " : "\t ") << lb << (chance(90) ? " " : "  ") << v; if (i + 1 < n || chance(80)) o << (chance(95) ? "\n" : "\r\n\n");
            r += (r.empty() ? "" : ",") + ("{\"c\":" + js(c)) + ",\"n\":" + js(lb) + ",\"v\":" + js(u64s(v)) + "}"; }
        es = "{\"there\":true,\"es\":[" + r + "]}"; return p;
    };
    for (int k = 1 + rnd(14); k > 0; k--) {
        int r = rnd(100);
        if (r < 20 && !mapped) {   // the maps are loaded before the stream is read
            if (chance(40)) { std::string es, p = make(es); bool ok = m.load_map(p); emit(J("Load").b("ok", ok).raw("files", "[" + es + "]")); }
            else { std::string all, ps; int n = 1 + rnd(3); for (int i = 0; i < n; i++) { std::string es, p = make(es); all += (i ? "," : "") + es; ps += (i ? "," : "") + p; } m.load_maps(ps); emit(J("Load").raw("files", "[" + all + "]")); }
        } else if (r < 45) { uint64_t v = number(); std::string lb = chance(80) ? "S" + std::to_string(rnd(9)) : chance(50) ? "two words" : ""; m.add_map_entry(v, lb); emit(J("Mapped").t("v", u64s(v)).t("n", lb)); mapped = true; }
        else asked(m, number());
    }
    for (int i = 0; i < 10; i++) asked(m, i);
    for (int i = 0; i < seq; i++) { unlink((g_dir + "/m" + std::to_string(i)).c_str()); unlink((g_dir + "/m" + std::to_string(i) + " with blanks.map").c_str()); }
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    g_dir = std::string(getenv("SCRATCH") ? getenv("SCRATCH") : ".") + "/map-" + std::to_string(getpid()); mkdir(g_dir.c_str(), 0700);
    signal(SIGPIPE, SIG_IGN);
    seq::run(a, false, [&](uint64_t n) { if (n % 2) { if (!g_in) start_server(); generator(); } else client(); });
    nftw(g_dir.c_str(), rmf, 16, FTW_DEPTH | FTW_PHYS);
}
