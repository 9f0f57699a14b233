// Argument vectors for the tools' option parser (odd cases) and the library
// (even cases: ht_init / ht_deinit, help in a child process).
#include "seq.hpp"
#include "wire.hpp"
#include <hawktracer.h>
#include <hawktracer/client_utils/command_line_parser.hpp>
#include <internal/global_timeline.h>
#include <sstream>
#include <thread>
using namespace seq;
using HawkTracer::ClientUtils::CommandLineParser;
static std::string by(const std::string& s) { return wire::bytes(s); }
static std::string list(const std::vector<std::string>& v) { std::string r = "["; for (auto& s : v) r += (r.size() > 1 ? "," : "") + by(s); return r + "]"; }
struct Argv {   // exact heap blocks, so that reading past any end is noticed
    std::vector<char*> p; char** v; bool none;
    explicit Argv(const std::vector<std::string>& a, bool noname = false) : none(noname) {
        if (!none) p.push_back(strdup("app"));
        for (auto& s : a) p.push_back(strdup(s.c_str()));
        v = (char**)malloc(sizeof(char*) * (p.size() ? p.size() : 1)); for (size_t i = 0; i < p.size(); i++) v[i] = p[i];
    }
    std::vector<std::string> after() { std::vector<std::string> r; for (size_t i = 1; i < p.size(); i++) r.push_back(v[i]); return r; }
    ~Argv() { for (char* c : p) free(c); free(v); }
};
static std::string word(int max) { std::string s; for (int n = rnd(max + 1); n > 0; n--) s += "ab-= "[rnd(5)]; return s; }
static void tools() {
    static const char* ps[] = {"--", "-", "/", "--x", "opt:"};
    std::string p = ps[rnd(5)], app = chance(50) ? "app" : "tool" + std::to_string(rnd(9));
    struct O { std::string n; bool flag, must; std::string help; };
    std::vector<O> os; int no = rnd(6);
    for (int i = 0; i < no; i++) { std::string n = chance(80) ? std::string(1, 'a' + rnd(4)) : chance(50) ? std::string(1, 'a' + rnd(3)) + "b" : "long-" + std::string(1 + rnd(30), 'q');
        if (chance(8)) n = p + n;
        os.push_back(O{n, chance(45), chance(25), chance(15) ? "" : "help-" + std::to_string(rnd(1000))}); }
    std::vector<std::string> a; int na = chance(20) ? rnd(9) : rnd(5);
    for (int i = 0; i < na; i++) {
        int r = rnd(100);
        if (os.size() && r < 85) { const O& o = os[rnd(os.size())]; a.push_back(p + o.n); if (!o.flag && chance(92)) a.push_back(chance(15) ? p + os[rnd(os.size())].n : word(4)); }
        else if (r < 90) a.push_back(p + word(2)); else if (r < 94) a.push_back(p); else if (r < 97) a.push_back(p.substr(0, rnd(p.size())) + (os.size() ? os[0].n : "")); else a.push_back(word(3));
    }
    if (chance(50)) for (auto& o : os) if (o.must && !o.flag) { a.insert(a.begin(), {p + o.n, word(3)}); }
    CommandLineParser c(p, app);
    for (auto& o : os) c.register_option(o.n, CommandLineParser::OptionInfo(o.flag, o.must, o.help));
    Argv v(a);
    bool ok = c.parse((int)v.p.size(), v.v);
    std::vector<std::string> names; for (auto& o : os) names.push_back(o.n); names.push_back("a"); names.push_back("zz"); for (auto& s : a) if (chance(30)) names.push_back(s);
    std::string got, opts, ho;
    for (auto& n : names) { std::string d = chance(50) ? "" : "default" + std::to_string(rnd(9)); std::string x = c.get_value(n, d);
        got += (got.empty() ? "" : ",") + ("{\"n\":" + by(n)) + ",\"has\":" + (c.has_value(n) ? "true" : "false") + ",\"v\":" + by(x) + ",\"d\":" + by(d) + "}"; }
    for (auto& o : os) opts += (opts.empty() ? "" : ",") + ("{\"n\":" + by(o.n)) + ",\"flag\":" + (o.flag ? "true" : "false") + ",\"must\":" + (o.must ? "true" : "false") + ",\"help\":" + by(o.help) + "}";
    // the help text: usage line with the name, then a line of words per option
    std::stringstream ss, in; c.print_help(ss); std::string ln, happ = "?", w; bool first = true;
    while (std::getline(ss, ln)) {
        std::istringstream ws(ln); std::vector<std::string> t; while (ws >> w) t.push_back(w);
        if (first) { first = false; if (t.size() > 1) happ = t[1]; continue; }
        if (t.empty()) continue;
        size_t k = 1; bool val = k < t.size() && t[k] == "<VALUE>"; if (val) k++; bool must = k < t.size() && t[k] == "[MANDATORY]"; if (must) k++;
        std::string rest; for (; k < t.size(); k++) rest += (rest.empty() ? "" : " ") + t[k];
        bool pre = t[0].compare(0, p.size(), p) == 0;
        ho += (ho.empty() ? "" : ",") + ("{\"n\":" + by(pre ? t[0].substr(p.size()) : "?" + t[0])) + ",\"val\":" + (val ? "true" : "false") + ",\"must\":" + (must ? "true" : "false") + ",\"help\":" + by(rest) + "}";
    }
    emit(J("Parse").raw("p", by(p)).raw("app", by(app)).raw("opts", "[" + opts + "]").raw("args", list(a)).b("ok", ok).raw("got", "[" + got + "]").raw("help", "{\"app\":" + by(happ) + ",\"opts\":[" + ho + "]}"));
}
static std::string number() {
    static const char* odd[] = {"", "-1", "+", "0x10", "12abc", "abc", "1 2", "12 ", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1e3", "4294967296", "000", "0", "184467440737095516150", "9223372036854775808", "20.5", "--ht-global-timeline-buffer-size", "--ht-help", "00000000000000000000000000000077", "-", "7-", "1234567x"};
    if (chance(45)) return odd[rnd(sizeof odd / sizeof *odd)];
    if (chance(20)) return std::to_string(rnd());
    return std::to_string(rnd(chance(50) ? 100 : 3000));
}
static size_t g_first;
static void count(HT_Byte*, size_t n, HT_Boolean, void*) { if (!g_first) g_first = n; }
static std::string sz() { return by(std::to_string(ht_global_timeline_get_buffer_size())); }
static void library() {
    static const char* other[] = {"--ht-helpx", "--ht-hel", "-ht-help", "x", "", "--ht-global-timeline-buffer-siz", "--ht-global-timeline-buffer-size=5", "--ht-global-timeline-buffer-sizes", "--help", "5", "--ht-", "--HT-HELP"};
    emit(J("Size").raw("size", sz()).b("up", ht_is_initialized()));
    int ups = 0;
    for (int k = 1 + rnd(4); k > 0; k--) {
        std::vector<std::string> a; bool noname = chance(3);
        for (int i = noname ? 0 : rnd(6); i > 0; i--) { int r = rnd(100);
            if (r < 50) { a.push_back("--ht-global-timeline-buffer-size"); if (chance(88)) a.push_back(number()); }
            else if (r < 54) a.push_back("--ht-help"); else if (r < 92) a.push_back(other[rnd(sizeof other / sizeof *other)]); else a.push_back(word(5)); }
        Argv v(a, noname);
        bool help = false; for (auto& s : a) if (s == "--ht-help") help = true;
        if (help) {   // in a child: it may end the process
            int fd[2]; if (pipe(fd)) _exit(97);
            fflush(stdout); pid_t pid = fork();
            if (pid == 0) { dup2(fd[1], 1); close(fd[0]); close(fd[1]); ht_init((int)v.p.size(), v.v); fflush(stdout); _exit(77); }
            close(fd[1]); std::string out; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
            close(fd[0]); int st = 0; waitpid(pid, &st, 0); int code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
            if (code != 77) { emit(J("Help").raw("args", list(a)).i("code", code).b("sizeopt", out.find("--ht-global-timeline-buffer-size") != std::string::npos).b("helpopt", out.find("--ht-help") != std::string::npos)); continue; }
        }
        ht_init((int)v.p.size(), v.v); ups++;
        emit(J("Init").raw("args", list(a)).raw("after", list(v.after())).b("up", ht_is_initialized()).raw("size", sz()));
        size_t s = ht_global_timeline_get_buffer_size();
        if (s <= 4000 && chance(60)) {
            std::thread([&] {
                HT_Timeline* m = ht_timeline_create(500, HT_FALSE, HT_TRUE, nullptr, nullptr); g_first = 0; ht_timeline_register_listener(m, count, nullptr);
                HT_TIMELINE_PUSH_EVENT(m, HT_Event); ht_timeline_flush(m); size_t one = g_first; ht_timeline_destroy(m);
                HT_Timeline* t = ht_global_timeline_get(); g_first = 0; ht_timeline_register_listener(t, count, nullptr);
                for (int i = 0; i < 400 && !g_first; i++) HT_TIMELINE_PUSH_EVENT(t, HT_Event);
                emit(J("First").raw("size", sz()).i("num", s).i("n", one).i("bytes", g_first));
            }).join();
        }
        if (chance(30)) { ht_deinit(); if (ups) ups--; emit(J("Deinit").b("up", ht_is_initialized())); }
    }
    for (int x = ups + (chance(20) ? 1 : 0); x > 0; x--) { ht_deinit(); emit(J("Deinit").b("up", ht_is_initialized())); }
    ht_global_timeline_set_buffer_size(1024);
}
int main(int argc, char** argv) {
    Args a(argc, argv);
    seq::run(a, false, [&](uint64_t n) {
        static bool quiet = false; if (!quiet) { quiet = true; int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
        if (n % 2) tools(); else library();
    });
}
