// The usage probes over real child processes (stopped while they are read, so
// that what the system accounts to them stands still) and over made-up
// processes whose files are handed to the library when it opens them.
#include "seq.hpp"
#include "vclock.hpp"
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/alloc.h>
#include <cmath>
#include <cstdarg>
#include <dlfcn.h>
#include <map>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/resource.h>
using namespace seq;
// ---------------------------------------------------------------- made-up processes
struct Fake { std::string stat, statm; bool there; };
static std::map<int, Fake> g_fake; static long g_served; static std::string g_dir;
static std::string redirect(const char* path) {
    int pid = 0; char what[16] = "", tail = 0;
    if (!path || sscanf(path, "/proc/%d/%15[a-z]%c", &pid, what, &tail) != 2 || !g_fake.count(pid)) return "";
    g_served++;
    const Fake& f = g_fake[pid];
    std::string p = g_dir + "/" + what;
    if (!f.there) return g_dir + "/missing";
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    FILE* o = real(p.c_str(), "w"); const std::string& c = std::string(what) == "stat" ? f.stat : f.statm; fwrite(c.data(), 1, c.size(), o); fclose(o);
    return p;
}
extern "C" FILE* fopen(const char* p, const char* m) { static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); std::string r = redirect(p); return real(r.empty() ? p : r.c_str(), m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
extern "C" int open(const char* p, int f, ...) { va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a); static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); std::string r = redirect(p); return real(r.empty() ? p : r.c_str(), f, mode); }
extern "C" int open64(const char* p, int f, ...) { va_list a; va_start(a, f); int mode = va_arg(a, int); va_end(a); return open(p, f, mode); }
// ---------------------------------------------------------------- real processes
static std::string slurp(const std::string& p) { std::string r; FILE* f = fopen(p.c_str(), "r"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static bool facts(int pid, long long& ticks, long long m[3]) {        // an independent reading
    std::string s = slurp("/proc/" + std::to_string(pid) + "/stat"), t = slurp("/proc/" + std::to_string(pid) + "/statm");
    if (s.empty() || t.empty()) return false;
    std::vector<std::string> f; std::string w;
    for (size_t i = s.rfind(')') + 2; i < s.size(); i++) { if (s[i] == ' ' || s[i] == '\n') { f.push_back(w); w.clear(); } else w += s[i]; }
    ticks = std::stoll(f[11]) + std::stoll(f[12]);
    return sscanf(t.c_str(), "%lld %lld %lld", &m[0], &m[1], &m[2]) == 3;
}
struct P { int pid; bool real, self, there; long long base = 0, ticks = 0, mbase = 0, virt = 0, shr = 0, res = 0; std::string name; int to = -1; };
static std::vector<P> g_p;
static const long long PAGE = sysconf(_SC_PAGESIZE);
static std::string odd_name() {
    static const char* n[] = {"a", "x y", "a) R 1", ") S 9 9", "((", "))", "))) R 0 0 0 0 0", "1 2 3", "%d %s%n", "", "name\\nline", "(sd-pam)", "kworker/0:1-ev"};
    return chance(60) ? n[rnd(13)] : std::string(rnd(15), ") R(\t0"[rnd(6)]);
}
static void child(int from, const std::string& name) {
    prctl(PR_SET_NAME, name.c_str()); prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        unsigned char c; raise(SIGSTOP); if (read(from, &c, 1) != 1) _exit(0);
        if (c == 255) { volatile char* p = (volatile char*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); for (int i = 0; i < 1 << 20; i += 4096) p[i] = 1; }
        else if (c == 254) mmap(nullptr, 40ull << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        else { struct rusage r; long e = -1; do { for (volatile int i = 0; i < 20000; i++) {} getrusage(RUSAGE_SELF, &r); long u = r.ru_utime.tv_sec * 1000 + r.ru_utime.tv_usec / 1000; if (e < 0) e = u + c; if (u >= e) break; } while (true); }
    }
}
static void settle(P& p) { int st; waitpid(p.pid, &st, WUNTRACED); }
static void make(P& p, int i) {
    p = P(); p.there = true; p.name = odd_name();
    int kind = rnd(10);
    if (kind < 2) {
        int fd[2]; if (pipe(fd)) _exit(96);
        p.real = true; p.self = false; p.to = fd[1]; p.pid = fork();
        if (p.pid == 0) { alarm(0); close(fd[1]); child(fd[0], p.name); }
        close(fd[0]); settle(p);
    } else if (kind == 2) { p.real = p.self = true; p.pid = getpid(); }
    else {
        p.real = p.self = false; p.pid = 90000000 + i;
        if (chance(10)) p.pid = 2147483000 + i;
        if (chance(50)) { p.base = chance(30) ? (1ll << 40) : (1ll << 31) - 20 + rnd(40); p.mbase = chance(30) ? 1ll << 38 : (1ll << 20) - 3; }
        p.virt = 100 + rnd(1000); p.shr = rnd(100); p.res = rnd(100) + p.shr;
    }
}
static void publish(int i) {      // tell the specification what holds now
    P& p = g_p[i];
    if (p.self) return;
    if (!p.real) {
        Fake& f = g_fake[p.pid]; f.there = p.there;
        long long total = p.base + p.ticks, u = chance(20) ? 0 : chance(20) ? total : total / 3;
        // lines as short as those of kernel threads and as long as the system can make them
        int sz = rnd(4); std::string tail; for (int k = 0; k < 37; k++) tail += " " + std::to_string(sz == 0 ? (uint64_t)0 : sz == 1 && chance(60) ? ~0ull - rnd(3) : chance(30) ? rnd() : rnd(3));
        auto big = [&](uint64_t lim, uint64_t usual) -> unsigned long long { return sz == 0 ? rnd(2) : sz == 1 ? lim - rnd(9) : rnd(usual); };
        char b[700]; snprintf(b, sizeof b, " %c %lld %d %d %d %d %u %llu %llu %llu %llu %lld %lld", "RSDZTtI"[rnd(7)], (long long)big(2147483647, 2000000000), (int)big(2147483647, 100000), (int)big(2147483647, 100000), sz == 0 ? 0 : chance(50) ? 0 : 34816, sz == 1 ? (int)big(2147483647, 2) : chance(50) ? -1 : (int)rnd(9999), (unsigned)rnd(), big(~0ull, 1ull << (8 * (1 + rnd(6)))), big(~0ull, 9), big(~0ull, 1u << 20), big(~0ull, 9), u, total - u);
        f.stat = std::to_string(p.pid) + " (" + p.name + ")" + b + tail + "\n";
        f.statm = std::to_string(p.mbase + p.virt) + " " + std::to_string(p.mbase / 2 + p.res) + " " + std::to_string(p.mbase / 4 + p.shr) + " " + std::to_string(p.virt < 20 ? 0 : rnd(999)) + " 0 " + std::to_string(p.virt < 20 ? 0 : rnd(99999)) + " 0\n";
        if (p.there) emit(J("Live").i("p", i).i("lo", p.ticks).i("hi", p.ticks).i("virt", p.virt).i("shr", p.shr).i("res", p.res)); else emit(J("Dead").i("p", i));
        return;
    }
    long long t, m[3];
    if (p.there && facts(p.pid, t, m)) emit(J("Live").i("p", i).i("lo", t).i("hi", t).i("virt", m[0]).i("shr", m[2]).i("res", m[1])); else emit(J("Dead").i("p", i));
}
static void move(int i) {
    P& p = g_p[i];
    if (p.self) return;
    if (!p.real) {
        int r = rnd(10);
        if (r < 7) p.ticks += chance(80) ? rnd(50) : p.ticks < 9000 ? rnd(3000) : 0; else if (r < 9) { p.virt = 20 + rnd(5000); p.shr = rnd(1000); p.res = rnd(1000); if (chance(30)) { p.virt = rnd(12); p.shr = rnd(2); p.res = rnd(3); } } else p.there = !p.there;
    } else if (p.there) {
        if (chance(12)) { int st; kill(p.pid, SIGKILL); waitpid(p.pid, &st, 0); close(p.to); p.there = false; }
        else { unsigned char c = chance(40) ? 255 : chance(20) ? 254 : 5 + rnd(25); if (write(p.to, &c, 1) != 1) _exit(96); kill(p.pid, SIGCONT); settle(p); }
    }
    publish(i);
}
static long g_blocks; static bool g_fail;
static void* alloc(void* p, size_t n, void*) { if (!p && n) { if (g_fail) return nullptr; g_blocks++; } if (p && !n) { g_blocks--; free(p); return nullptr; } return n ? realloc(p, n) : nullptr; }
int main(int argc, char** argv) {
    Args a(argc, argv);
    ht_allocator_set(alloc, nullptr);
    std::string scratch = getenv("SCRATCH") ? getenv("SCRATCH") : "/tmp";
    seq::run(a, true, [&](uint64_t n) {
        g_dir = scratch + "/usage." + std::to_string(getpid()); mkdir(g_dir.c_str(), 0700);
        vclock::sec = 1 + rnd(1000000); vclock::nsec = 0; int64_t s0 = vclock::sec, ms = 0;
        emit(J("Sys").i("hz", sysconf(_SC_CLK_TCK)));
        int np = 1 + rnd(2); g_p.resize(np);
        for (int i = 0; i < np; i++) { make(g_p[i], i); publish(i); }
        std::map<int, std::pair<HT_CPUUsageContext*, int>> cc; std::map<int, std::pair<HT_MemoryUsageContext*, int>> mm; std::map<int, int64_t> at; int ids = 0;
        int steps = 6 + rnd(50); bool usable = true;
        for (int s = 0; s < steps && usable; s++) {
            int r = rnd(100), i = rnd(np);
            if (r < 30) { int64_t d = chance(50) ? rnd(200) : chance(80) ? rnd(5000) : rnd(60000); ms += d; vclock::sec = s0 + ms / 1000; vclock::nsec = (ms % 1000) * 1000000; emit(J("Clock").i("t", ms)); }
            else if (r < 45) move(i);
            else if (r < (cc.size() < 3 ? 60 : 52)) {
                g_fail = chance(10); int pid = g_p[i].pid; long served = g_served; long long lo = 0, hi = 0, m[3];
                if (g_p[i].self) facts(pid, lo, m);
                HT_CPUUsageContext* c = ht_cpu_usage_context_create(g_p[i].self ? nullptr : &pid); pid = 1;
                if (g_p[i].self) { facts(g_p[i].pid, hi, m); emit(J("Live").i("p", i).i("lo", lo).i("hi", hi).i("virt", m[0]).i("shr", m[2]).i("res", m[1])); }
                if (g_fail) emit(J("NoMem").b("null", c == nullptr));
                else { if (!g_p[i].real && served == g_served) { usable = false; ht_cpu_usage_context_destroy(c); emit(J("Blind")); continue; } cc[++ids] = {c, i}; at[ids] = ms; emit(J("Open").i("c", ids).i("p", i)); }
                g_fail = false;
            } else if (r < 83 && !cc.empty()) {
                auto it = cc.begin(); std::advance(it, rnd(cc.size())); int k = it->second.second;
                if (ms <= at[it->first] || ms - at[it->first] > 90000) continue;   // time passes between probes
                long long lo = 0, hi = 0, m[3];
                if (g_p[k].self) facts(getpid(), lo, m);
                float v = ht_cpu_usage_get_percentage(it->second.first);
                if (g_p[k].self) { facts(getpid(), hi, m); emit(J("Live").i("p", k).i("lo", lo).i("hi", hi).i("virt", m[0]).i("shr", m[2]).i("res", m[1])); }
                bool ok = v >= 0.0f; int64_t since = ms - at[it->first]; if (ok) at[it->first] = ms;
                double c = std::isfinite(v) ? std::floor((double)v * 100 + 0.5) : -2e9; if (c > 2e9) c = 2e9;
                // products stay within the checker's integers
                emit(J("Cpu").i("c", it->first).b("ok", ok).i("v", !ok ? -1 : c * since > 2e9 ? -7 : (long long)c));
            } else if (r < 87) {
                int pid = g_p[i].pid; HT_MemoryUsageContext* c = ht_memory_usage_context_create(g_p[i].self ? nullptr : &pid); pid = 1; mm[++ids] = {c, i}; if (!c) emit(J("NoMem").b("null", false));
            } else if (r < 96 && !mm.empty()) {
                auto it = mm.begin(); std::advance(it, rnd(mm.size())); int k = it->second.second; P& p = g_p[k];
                size_t v = 1, h = 1, e = 1; int ask = rnd(8); long served = g_served;
                HT_ErrorCode err = ht_memory_usage_get_usage(it->second.first, ask & 1 ? &v : nullptr, ask & 2 ? &h : nullptr, ask & 4 ? &e : nullptr);
                if (p.self) { long long t, m[3]; facts(p.pid, t, m); auto near = [&](size_t b, long long w) { return b % PAGE == 0 && std::llabs((long long)(b / PAGE) - w) < 400; };
                    emit(J("SelfMem").b("ok", err == HT_ERR_OK && (!(ask & 1) || near(v, m[0])) && (!(ask & 2) || near(h, m[2])) && (!(ask & 4) || near(e, m[1])))); }
                else {
                    if (!p.real && served == g_served && ask) { usable = false; emit(J("Blind")); continue; }
                    auto pages = [&](size_t b, long long base) { return b % PAGE ? -9 : (long long)(b / PAGE) - base; };
                    bool ok = err == HT_ERR_OK;
                    emit(J("Mem").i("p", k).b("ok", ok).i("virt", ask & 1 ? ok ? pages(v, p.mbase) : 0 : -1).i("shr", ask & 2 ? ok ? pages(h, p.mbase / 4) : 0 : -1).i("res", ask & 4 ? ok ? pages(e, p.mbase / 2) : 0 : -1));
                }
            } else if (r < 98 && !cc.empty()) { ht_cpu_usage_context_destroy(cc.begin()->second.first); emit(J("Close").i("c", cc.begin()->first)); cc.erase(cc.begin()); }
            else { size_t v; emit(J("NullCtx").b("ok", ht_memory_usage_get_usage(nullptr, &v, nullptr, nullptr) == HT_ERR_OK)); }
        }
        for (auto& c : cc) ht_cpu_usage_context_destroy(c.second.first);
        for (auto& m : mm) ht_memory_usage_context_destroy(m.second.first);
        emit(J("End").i("blocks", g_blocks));
        for (auto& p : g_p) if (p.real && !p.self && p.there) { int st; kill(p.pid, SIGKILL); waitpid(p.pid, &st, 0); }
        unlink((g_dir + "/stat").c_str()); unlink((g_dir + "/statm").c_str()); rmdir(g_dir.c_str());
    });
}
