#include "vs.h"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

struct Thr {
    int id = 0;
    bool done = false;
    bool blocked = false;
    std::function<bool()> ready;
    int64_t wake = -1;
    const char* why = "";
    sem_t sem;
    uint64_t prio = 0;
    char *lo = nullptr, *hi = nullptr;
    pthread_t real;
    void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    std::vector<std::pair<void (*)(void*), void*>> dtors;
    std::vector<std::pair<pthread_key_t, void*>> spec;
};

struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };

thread_local Thr* t_self = nullptr;
thread_local int t_quiet = 0;

bool g_active = false;
std::vector<Thr*>* g_thr;
Rng g_sched, g_scn, g_net;
int g_policy; uint64_t g_switch_every;
std::vector<uint64_t>* g_changes; uint64_t g_low_prio;
uint64_t g_steps, g_max_steps = 3000000;
uint64_t g_time = 1000;
char* g_buf; size_t* g_len; const size_t BUF = 8u << 20;

// ---------------------------------------------------------------- arena
char* a_base; size_t a_size = 512u << 20; size_t a_top;
uint8_t* a_shadow;   // one byte per 8 bytes: 0..8 valid bytes count, 0xF0 redzone, 0xFD freed
struct Hdr { size_t size; uint32_t magic; uint32_t freed; };
size_t a_live;

inline bool in_arena(const void* p) { return (char*)p >= a_base && (char*)p < a_base + a_size; }

void* a_alloc(size_t n) {
    size_t need = ((n + 7) & ~size_t(7)) + 32 + sizeof(Hdr);
    need = (need + 15) & ~size_t(15);
    if (a_top + need + 32 > a_size) return nullptr;
    char* p = a_base + a_top + 16 + sizeof(Hdr);
    p = (char*)(((uintptr_t)p + 15) & ~uintptr_t(15));
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n; h->magic = 0xA110C; h->freed = 0;
    size_t g = (p - a_base) >> 3;
    for (size_t i = 0; i < n / 8; i++) a_shadow[g + i] = 8;
    if (n % 8) a_shadow[g + n / 8] = n % 8;
    a_top = (p - a_base) + ((n + 15) & ~size_t(15)) + 16;
    a_live++;
    memset(p, 0xCD, n);
    return p;
}

void a_free(void* p) {
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != 0xA110C) vs::fatal("BadFree", "not a block");
    if (h->freed) vs::fatal("BadFree", "double free");
    h->freed = 1;
    size_t g = ((char*)p - a_base) >> 3;
    for (size_t i = 0; i < (h->size + 7) / 8; i++) a_shadow[g + i] = 0xFD;
    a_live--;
}

void check_mem(const void* p, size_t n, bool wr) {
    if (!in_arena(p) || n == 0) return;
    size_t off = (char*)p - a_base;
    for (size_t i = off >> 3; i <= (off + n - 1) >> 3; i++) {
        uint8_t s = a_shadow[i];
        size_t end = std::min(off + n, (i + 1) << 3) - (i << 3);
        if (s == 0xFD) vs::fatal("BadMem", wr ? "write after free" : "read after free");
        if (s > 8 || end > s) vs::fatal("BadMem", wr ? "write outside block" : "read outside block");
    }
}

// ------------------------------------------------------------ scheduling
void switch_to(Thr* n) {
    if (n == t_self) return;
    sem_post(&n->sem);
    while (sem_wait(&t_self->sem) != 0) {}
}

bool can_run(Thr* t) {
    if (t->done) return false;
    if (!t->blocked) return true;
    if (t->wake >= 0 && (uint64_t)t->wake <= g_time) return true;
    return t->ready && t->ready();
}

Thr* pick(bool need) {
    for (;;) {
        std::vector<Thr*> c;
        for (Thr* t : *g_thr) if (can_run(t)) c.push_back(t);
        if (!c.empty()) {
            if (g_policy == 1 && g_steps < g_max_steps / 8) {
                Thr* b = c[0];
                for (Thr* t : c) if (t->prio > b->prio) b = t;
                return b;
            }
            return c[g_sched.next() % c.size()];
        }
        int64_t w = -1;
        for (Thr* t : *g_thr) if (!t->done && t->wake >= 0 && (w < 0 || t->wake < w)) w = t->wake;
        if (w < 0) {
            if (!need) return nullptr;
            std::string d;
            for (Thr* t : *g_thr) if (!t->done) d += std::to_string(t->id) + ":" + t->why + " ";
            vs::fatal("Deadlock", d);
        }
        g_time = w;
    }
}

void set_running(Thr* n) { n->blocked = false; n->ready = nullptr; n->wake = -1; n->why = ""; }

void sync_point() {   // scheduling point at a synchronisation operation
    Thr* me = t_self;
    if (!me || t_quiet) return;
    t_quiet++;
    g_steps++;
    if (g_steps > g_max_steps) vs::fatal("Livelock", "step bound");
    bool sw;
    if (g_policy == 1 && g_steps < g_max_steps / 8) {
        if (!g_changes->empty() && g_steps >= g_changes->back()) { g_changes->pop_back(); me->prio = --g_low_prio; }
        sw = true;
    } else sw = (g_sched.next() % 4) != 0;
    if (sw) { Thr* n = pick(true); if (n != me) { set_running(n); switch_to(n); } }
    t_quiet--;
}

inline void mem_point() {
    Thr* me = t_self;
    g_steps++;
    if (g_steps > g_max_steps) vs::fatal("Livelock", "step bound");
    if (g_policy == 1 && g_steps < g_max_steps / 8) {
        if (g_changes->empty() || g_steps < g_changes->back()) return;
        g_changes->pop_back(); me->prio = --g_low_prio;
    } else if (g_sched.next() % g_switch_every) return;
    t_quiet++;
    Thr* n = pick(true);
    if (n != me) { set_running(n); switch_to(n); }
    t_quiet--;
}

inline void access(void* a, size_t n, bool wr) {
    Thr* me = t_self;
    if (!me || t_quiet) return;
    if ((char*)a >= me->lo && (char*)a < me->hi) return;
    mem_point();
    check_mem(a, n, wr);
}

bool block_on(const std::function<bool()>& ready, const char* why, int64_t wake = -1) {
    Thr* me = t_self;
    t_quiet++;
    g_steps++;
    if (g_steps > g_max_steps) vs::fatal("Livelock", "step bound");
    me->blocked = true; me->ready = ready; me->why = why; me->wake = wake;
    Thr* n = pick(true);
    set_running(n);
    if (n != me) switch_to(n);
    t_quiet--;
    return true;
}

void (*key_dtor(pthread_key_t k))(void*);
void* thr_main(void* p) {
    Thr* t = (Thr*)p;
    t_quiet = 1;
    pthread_attr_t at; void* sa; size_t ss;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sa, &ss); pthread_attr_destroy(&at);
    t->lo = (char*)sa; t->hi = t->lo + ss;
    t_self = t;
    while (sem_wait(&t->sem) != 0) {}
    t_quiet = 0;
    t->ret = t->start(t->arg);
    while (!t->dtors.empty()) { auto d = t->dtors.back(); t_quiet++; t->dtors.pop_back(); t_quiet--; d.first(d.second); }
    for (size_t i = 0; i < t->spec.size(); i++) { auto x = t->spec[i]; auto d = key_dtor(x.first); if (x.second && d) d(x.second); }
    t_quiet = 1;
    t->done = true;
    Thr* n = pick(false);
    if (n) { set_running(n); sem_post(&n->sem); }
    return t->ret;
}

template <class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) static auto r_##name = real<decltype(&::name)>(#name)
inline bool managed() { return t_self && !t_quiet; }
struct Q { Q() { t_quiet++; } ~Q() { t_quiet--; } };
std::map<pthread_key_t, void (*)(void*)>* g_keys;
void (*key_dtor(pthread_key_t k))(void*) { Q q; return g_keys && g_keys->count(k) ? (*g_keys)[k] : nullptr; }

struct Mx { Thr* owner = nullptr; int count = 0; };
std::unordered_map<void*, Mx>* g_mx;
struct Waiter { Thr* t; bool signalled; };
std::unordered_map<void*, std::deque<Waiter*>>* g_cv;
std::unordered_map<void*, int>* g_guard;   // 1 = in progress
std::unordered_map<void*, int>* g_once;

void on_sig(int s) { t_quiet = 100; char b[64]; snprintf(b, sizeof b, "signal %d", s); vs::fatal("Crash", b); }

} // namespace

namespace vs {
bool g_trace_alloc = false;

Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }

void emit(const std::string& line) {
    Q q;
    if (*g_len + line.size() + 1 > BUF - 4096) fatal("TraceFull", "");
    memcpy(g_buf + *g_len, line.data(), line.size());
    g_buf[*g_len + line.size()] = '\n';
    *g_len += line.size() + 1;
}

void fatal(const char* ev, const std::string& detail) {
    t_quiet++;
    char b[512];
    int n = snprintf(b, sizeof b, "{\"e\":\"%s\",\"why\":\"%.300s\"}\n", ev, detail.c_str());
    memcpy(g_buf + *g_len, b, n); *g_len += n;
    _exit(42);
}
uint64_t rnd() { return g_scn.next(); }
int self() { return t_self ? t_self->id : -1; }
void point() { sync_point(); }
void block(const std::function<bool()>& r, const char* why) { sync_point(); if (!r()) block_on(r, why); }
void advance(uint64_t ns) { g_time += ns; }
uint64_t now() { return g_time; }
size_t live_blocks() { return a_live; }

void run_case(FILE* out, uint64_t seed, const std::string& first, const std::function<void()>& fn) {
    static bool init = false;
    if (!init) {
        init = true;
        g_buf = (char*)mmap(nullptr, BUF + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        g_len = (size_t*)(g_buf + BUF);
        a_base = (char*)mmap(nullptr, a_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        a_shadow = (uint8_t*)mmap(nullptr, a_size / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    static int abnormal = 0;
    if (abnormal >= 5) return;
    *g_len = 0;
    fflush(out);
    pid_t pid = fork();
    if (pid == 0) {
        int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
        static char altstack[65536];
        stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
        for (int s : sigs) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr); }
        alarm(30);
        g_thr = new std::vector<Thr*>; g_mx = new std::unordered_map<void*, Mx>; g_cv = new std::unordered_map<void*, std::deque<Waiter*>>;
        g_guard = new std::unordered_map<void*, int>; g_once = new std::unordered_map<void*, int>;
        g_changes = new std::vector<uint64_t>;
        g_sched.s = seed * 3 + 1; g_scn.s = seed * 5 + 2; g_net.s = seed * 7 + 3;
        for (int i = 0; i < 4; i++) { g_sched.next(); g_scn.next(); g_net.next(); }
        g_policy = g_sched.next() % 3 == 0;
        static const uint64_t ev[] = {2, 4, 8, 16, 40, 120, 400};
        g_switch_every = ev[g_sched.next() % 7];
        g_low_prio = 1000;
        int d = 1 + g_sched.next() % 6;
        uint64_t span = (uint64_t[]){60, 250, 1000, 4000}[g_sched.next() % 4];
        for (int i = 0; i < d; i++) g_changes->push_back(g_sched.next() % span);
        for (size_t i = 0; i < g_changes->size(); i++) for (size_t j = i + 1; j < g_changes->size(); j++) if ((*g_changes)[j] > (*g_changes)[i]) std::swap((*g_changes)[i], (*g_changes)[j]);
        g_steps = 0;
        Thr* t = new Thr; t->id = 0; sem_init(&t->sem, 0, 0); t->real = pthread_self();
        pthread_attr_t at; void* sa; size_t ssz;
        pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sa, &ssz); pthread_attr_destroy(&at);
        t->lo = (char*)sa; t->hi = t->lo + ssz;
        t->prio = 2000 + g_sched.next() % 1000;
        g_thr->push_back(t);
        g_active = true;
        emit(first);
        t_self = t;
        fn();
        // scenario over: let every thread that can still run finish
        t_quiet++;
        _exit(41);          // and not 0: the code under test may end the process
    }
    int st = 0;
    waitpid(pid, &st, 0);
    fwrite(g_buf, 1, *g_len, out);
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 41) abnormal++;
    if (WIFSIGNALED(st)) fprintf(out, "{\"e\":\"%s\",\"why\":\"signal %d\"}\n", WTERMSIG(st) == SIGALRM ? "Hang" : "Crash", WTERMSIG(st));
    else if (WEXITSTATUS(st) != 41 && WEXITSTATUS(st) != 42) fprintf(out, "{\"e\":\"Crash\",\"why\":\"exit %d\"}\n", WEXITSTATUS(st));
}
} // namespace vs

// ======================================================== instrumentation ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* a) { access(a, N, false); } \
void __tsan_write##N(void* a) { access(a, N, true); } \
void __tsan_unaligned_read##N(void* a) { access(a, N, false); } \
void __tsan_unaligned_write##N(void* a) { access(a, N, true); } \
void __tsan_read_write##N(void* a) { access(a, N, false); access(a, N, true); } \
void __tsan_unaligned_read_write##N(void* a) { access(a, N, false); access(a, N, true); } \
void __tsan_volatile_read##N(void* a) { access(a, N, false); } \
void __tsan_volatile_write##N(void* a) { access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (n) { access((void*)s, n, false); access(d, n, true); }
    // copy in two halves so that a concurrent reader can see a torn value
    if (managed() && n > 1) { memcpy(d, s, n / 2); mem_point(); memcpy((char*)d + n / 2, (char*)s + n / 2, n - n / 2); return d; }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false); access(d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(d, n, true); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* a, int) { access((void*)a, sizeof(T), false); return *a; } \
void __tsan_atomic##B##_store(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { access((void*)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, f); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ================================================================== memory
void* malloc(size_t n) { return managed() ? a_alloc(n ? n : 1) : __libc_malloc(n); }
void free(void* p) {
    if (!p) return;
    if (in_arena(p)) { int q = t_quiet; if (!q && t_self) mem_point(); t_quiet++; a_free(p); t_quiet--; return; }
    __libc_free(p);
}
void* calloc(size_t n, size_t m) { if (!managed()) return __libc_calloc(n, m); void* p = a_alloc(n * m ? n * m : 1); if (p) memset(p, 0, n * m); return p; }
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!in_arena(p)) return __libc_realloc(p, n);
    if (managed()) mem_point();
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != 0xA110C || h->freed) vs::fatal("BadFree", "realloc of a freed block");
    void* q = a_alloc(n ? n : 1);
    if (!q) return nullptr;
    memcpy(q, p, std::min(h->size, n));
    a_free(p);
    return q;
}
int posix_memalign(void** o, size_t al, size_t n) { *o = __libc_memalign(al, n); return *o ? 0 : ENOMEM; }
void* memalign(size_t al, size_t n) { return __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return __libc_memalign(al, n); }

// ============================================================ threads, locks
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*f)(void*), void* arg) {
    REAL(pthread_create);
    if (!managed()) return r_pthread_create(out, at, f, arg);
    Thr* t;
    { Q q;
      t = new Thr; t->id = g_thr->size(); sem_init(&t->sem, 0, 0); t->start = f; t->arg = arg;
      t->prio = 2000 + g_sched.next() % 1000;
      int r = r_pthread_create(&t->real, at, thr_main, t);
      if (r) return r;
      *out = t->real;
      g_thr->push_back(t);
    }
    sync_point();
    return 0;
}
int pthread_join(pthread_t th, void** ret) {
    REAL(pthread_join);
    if (!managed()) return r_pthread_join(th, ret);
    Thr* t = nullptr;
    { Q q; for (Thr* x : *g_thr) if (pthread_equal(x->real, th) && x->id != 0) t = x; }
    if (!t) vs::fatal("BadJoin", "join of an unknown thread");
    sync_point();
    if (t == t_self) return EDEADLK;
    if (!t->done) block_on([t] { return t->done; }, "join");
    Q q;
    return r_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) { REAL(pthread_detach); Q q; return r_pthread_detach(th); }

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static void lock_mx(void* m, bool rec) {
    Mx* x; { Q q; x = &(*g_mx)[m]; }
    if (x->owner == t_self) {
        if (rec) { x->count++; return; }
        vs::fatal("Deadlock", "thread relocks its own mutex");
    }
    if (x->owner) block_on([m] { return (*g_mx)[m].owner == nullptr; }, "mutex");
    { Q q; x = &(*g_mx)[m]; }
    x->owner = t_self; x->count = 1;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(pthread_mutex_lock);
    if (!managed()) return r_pthread_mutex_lock(m);
    check_mem(m, sizeof *m, true);
    sync_point();
    check_mem(m, sizeof *m, true);
    lock_mx(m, recursive(m));
    check_mem(m, sizeof *m, true);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    REAL(pthread_mutex_trylock);
    if (!managed()) return r_pthread_mutex_trylock(m);
    sync_point();
    check_mem(m, sizeof *m, true);
    Q q; Mx& x = (*g_mx)[m];
    if (x.owner == t_self && recursive(m)) { x.count++; return 0; }
    if (x.owner) return EBUSY;
    x.owner = t_self; x.count = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(pthread_mutex_unlock);
    if (!managed()) return r_pthread_mutex_unlock(m);
    check_mem(m, sizeof *m, true);
    { Q q; Mx& x = (*g_mx)[m];
      if (x.owner != t_self) vs::fatal("BadUnlock", "unlock of a mutex the thread does not hold");
      if (--x.count == 0) { x.owner = nullptr; g_mx->erase(m); } }
    sync_point();
    return 0;
}
static int cond_wait_common(void* c, pthread_mutex_t* m, int64_t wake) {
    int rec = 1; Waiter* w;
    sync_point();         // between the caller's last look at the condition and the wait
    { Q q; Mx& x = (*g_mx)[m];
      if (x.owner != t_self) vs::fatal("BadUnlock", "condition wait without the mutex");
      rec = x.count; x.owner = nullptr; g_mx->erase(m);
      w = new Waiter{t_self, false};
      (*g_cv)[c].push_back(w);
      if (g_sched.next() % 24 == 0) w->signalled = true;  // spurious wake-up
    }
    block_on([w] { return w->signalled; }, "condition", wake);
    int r = w->signalled ? 0 : ETIMEDOUT;
    { Q q; auto& d = (*g_cv)[c]; for (auto it = d.begin(); it != d.end(); ++it) if (*it == w) { d.erase(it); break; } delete w; }
    check_mem(m, sizeof *m, true);
    lock_mx(m, recursive(m));
    { Q q; (*g_mx)[m].count = rec; }
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    REAL(pthread_cond_wait);
    if (!managed()) return r_pthread_cond_wait(c, m);
    return cond_wait_common(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    REAL(pthread_cond_timedwait);
    if (!managed()) return r_pthread_cond_timedwait(c, m, ts);
    return cond_wait_common(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
    static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    if (!managed()) return r(c, m, id, ts);
    return cond_wait_common(c, m, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
static int cond_wake(void* c, bool all) {
    check_mem(c, 8, true);
    sync_point();
    check_mem(c, 8, true);
    { Q q; auto it = g_cv->find(c);
      if (it != g_cv->end()) {
        std::vector<Waiter*> ws; for (Waiter* w : it->second) if (!w->signalled) ws.push_back(w);
        if (!ws.empty()) { if (all) for (Waiter* w : ws) w->signalled = true; else ws[g_sched.next() % ws.size()]->signalled = true; }
      } }
    sync_point();
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { REAL(pthread_cond_signal); return managed() ? cond_wake(c, false) : r_pthread_cond_signal(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { REAL(pthread_cond_broadcast); return managed() ? cond_wake(c, true) : r_pthread_cond_broadcast(c); }
int pthread_cond_destroy(pthread_cond_t* c) { REAL(pthread_cond_destroy); if (!managed()) return r_pthread_cond_destroy(c); return 0; }

int pthread_once(pthread_once_t* o, void (*f)(void)) {
    REAL(pthread_once);
    if (!managed()) return r_pthread_once(o, f);
    sync_point();
    int st; { Q q; st = (*g_once)[o]; }
    if (st == 2) return 0;
    if (st == 1) { block_on([o] { return (*g_once)[o] == 2; }, "once"); return 0; }
    { Q q; (*g_once)[o] = 1; }
    f();
    { Q q; (*g_once)[o] = 2; *(int*)o = 2; }
    return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
    static auto r = real<int (*)(uint64_t*)>("__cxa_guard_acquire");
    if (!managed()) return r(g);
    if (*(char*)g) return 0;
    sync_point();
    for (;;) {
        if (*(char*)g) return 0;
        int st; { Q q; st = (*g_guard)[g]; }
        if (!st) { Q q; (*g_guard)[g] = 1; return 1; }
        block_on([g] { return *(char*)g || !(*g_guard)[g]; }, "static init");
    }
}
void __cxa_guard_release(uint64_t* g) {
    static auto r = real<void (*)(uint64_t*)>("__cxa_guard_release");
    if (!managed()) return r(g);
    Q q; *(char*)g = 1; (*g_guard)[g] = 0;
}
void __cxa_guard_abort(uint64_t* g) {
    static auto r = real<void (*)(uint64_t*)>("__cxa_guard_abort");
    if (!managed()) return r(g);
    Q q; (*g_guard)[g] = 0;
}
int __cxa_thread_atexit(void (*d)(void*), void* o, void* dso) {
    static auto r = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit");
    if (!managed()) return r(d, o, dso);
    Q q; t_self->dtors.emplace_back(d, o); return 0;
}

// thread-specific data: destructors run while the thread is still managed
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) {
    REAL(pthread_key_create);
    if (!managed()) return r_pthread_key_create(k, d);
    Q q; if (!g_keys) g_keys = new std::map<pthread_key_t, void (*)(void*)>;
    int r = r_pthread_key_create(k, nullptr); if (!r) (*g_keys)[*k] = d;
    return r;
}
int pthread_setspecific(pthread_key_t k, const void* v) {
    REAL(pthread_setspecific);
    if (managed()) { Q q; if (g_keys && g_keys->count(k)) { bool f = false; for (auto& x : t_self->spec) if (x.first == k) { x.second = (void*)v; f = true; } if (!f) t_self->spec.emplace_back(k, (void*)v); } }
    return r_pthread_setspecific(k, v);
}
// ==================================================================== clock
int clock_gettime(clockid_t id, struct timespec* ts) {
    REAL(clock_gettime);
    if (!managed()) return r_clock_gettime(id, ts);
    uint64_t t = g_time;
    if (id == CLOCK_REALTIME) t = 1700000000000000000ull - t * 3;   // wall clock runs backwards
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull;
    return 0;
}
static int vsleep(uint64_t ns) { if (g_policy == 1) t_self->prio = --g_low_prio; block_on(nullptr, "sleep", g_time + ns); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { REAL(nanosleep); if (!managed()) return r_nanosleep(a, b); return vsleep(a->tv_sec * 1000000000ull + a->tv_nsec); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
    REAL(clock_nanosleep); if (!managed()) return r_clock_nanosleep(c, fl, a, b);
    uint64_t v = a->tv_sec * 1000000000ull + a->tv_nsec;
    if (fl & TIMER_ABSTIME) v = v > g_time ? v - g_time : 0;
    return vsleep(v);
}
int usleep(useconds_t u) { REAL(usleep); if (!managed()) return r_usleep(u); return vsleep(u * 1000ull); }
int sched_yield() { REAL(sched_yield); if (!managed()) return r_sched_yield(); if (g_policy == 1) t_self->prio = --g_low_prio; sync_point(); return 0; }
} // extern C

// ================================================================== network
namespace vs { bool g_eintr = false; }
namespace {
struct Sock {
    bool listening = false, bound = false, shut_rd = false, shut_wr = false, fdclosed = false, finsent = false, rst = false, connected = false;
    int port = 0, inflight = 0, conn = 0;
    std::deque<char> in; size_t cap = 4096;
    std::weak_ptr<Sock> peer; bool peer_fin = false;
    std::deque<std::shared_ptr<Sock>> backlog;
};
typedef std::shared_ptr<Sock> SP;
std::map<int, SP>* g_fd;
std::map<int, SP>* g_port;
int g_conns;
const int FD0 = 1000;
int g_fd_base;       // where the descriptors of this process start: it may have thousands of them open

SP sk(int fd) { Q q; if (!g_fd) return nullptr; auto i = g_fd->find(fd); return i == g_fd->end() ? nullptr : i->second; }
int add_fd(SP s) { Q q; if (!g_fd) { g_fd = new std::map<int, SP>; g_port = new std::map<int, SP>; g_fd_base = (int[]){FD0, 1000, 1020, 5000, 70000}[g_net.next() % 5]; } int f = g_fd_base; while (g_fd->count(f)) f++; (*g_fd)[f] = s; return f; }
void send_fin(SP s) {
    if (s->finsent) return;
    s->finsent = true;
    if (SP p = s->peer.lock()) p->peer_fin = true;
}
void maybe_release(SP s) {
    if (!s->fdclosed || s->inflight) return;
    if (s->listening) {
        s->listening = false;
        if (g_port->count(s->port) && (*g_port)[s->port] == s) g_port->erase(s->port);
        for (auto& b : s->backlog) { if (SP p = b->peer.lock()) { p->peer_fin = true; p->rst = true; } }
        s->backlog.clear();
    }
    if (SP p = s->peer.lock()) {
        bool unread = !s->in.empty();
        send_fin(s);
        if (unread || g_net.next() % 2) p->rst = true;   // the next send of the peer fails at once
    }
}
struct InFlight { SP s; InFlight(SP x) : s(x) { s->inflight++; } ~InFlight() { Q q; s->inflight--; maybe_release(s); } };

bool sigpipe_kills() {
    struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa);
    if (sa.sa_handler == SIG_IGN) return false;
    sigset_t m; pthread_sigmask(SIG_BLOCK, nullptr, &m);
    if (sigismember(&m, SIGPIPE)) return false;
    return sa.sa_handler == SIG_DFL;
}
ssize_t epipe(int flags) { if (!(flags & MSG_NOSIGNAL) && sigpipe_kills()) vs::fatal("SigPipe", "send on a closed connection"); errno = EPIPE; return -1; }

bool interrupted() { if (!vs::g_eintr) return false; Q q; if (g_net.next() % 12) return false; errno = EINTR; return true; }
ssize_t vsend(SP s, const void* b, size_t n, int flags) {
    check_mem(b, n, false);
    sync_point();
    InFlight f(s);
    for (;;) {
        SP p = s->peer.lock();
        if (s->shut_wr || !s->connected) return epipe(flags);
        if (s->rst) return epipe(flags);
        if (!p || (p->fdclosed && !p->inflight) || p->shut_rd) { s->rst = true; return n; }   // accepted locally, lost
        size_t room = p->in.size() < p->cap ? p->cap - p->in.size() : 0;
        if (interrupted()) return -1;
        if (room) {
            Q q;
            size_t k = std::min(room, n);
            if (k > 1 && g_net.next() % 4 == 0) k = 1 + g_net.next() % k;
            p->in.insert(p->in.end(), (const char*)b, (const char*)b + k);
            return k;
        }
        if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
        block_on([s] { SP p = s->peer.lock(); return s->shut_wr || s->rst || !p || p->fdclosed || p->shut_rd || p->in.size() < p->cap; }, "send");
    }
}
ssize_t vrecv(SP s, void* b, size_t n, int flags) {
    check_mem(b, n, true);
    sync_point();
    InFlight f(s);
    for (;;) {
        if (interrupted()) return -1;
        if (!s->in.empty() && !s->shut_rd) {
            Q q;
            size_t k = std::min(n, s->in.size());
            if (k > 1 && g_net.next() % 3 == 0) k = 1 + g_net.next() % k;
            for (size_t i = 0; i < k; i++) ((char*)b)[i] = s->in[i];
            if (!(flags & MSG_PEEK)) s->in.erase(s->in.begin(), s->in.begin() + k);
            return k;
        }
        if (s->shut_rd || s->peer_fin) return 0;
        if (!s->connected) { errno = ENOTCONN; return -1; }
        if (flags & MSG_DONTWAIT) { errno = EAGAIN; return -1; }
        block_on([s] { return !s->in.empty() || s->shut_rd || s->peer_fin; }, "recv");
    }
}
} // namespace
namespace vs {
int open_sockets() { return g_fd ? g_fd->size() : 0; }
int conn_id(int fd) { SP s = sk(fd); return s ? s->conn : 0; }
}


extern "C" {
int socket(int d, int t, int p) { REAL(socket); if (!managed()) return r_socket(d, t, p); Q q; return add_fd(std::make_shared<Sock>()); }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { REAL(setsockopt); if (!managed()) return r_setsockopt(fd, l, o, v, n); if (!sk(fd)) { errno = EBADF; return -1; } return 0; }
int getsockopt(int fd, int l, int o, void* v, socklen_t* n) { REAL(getsockopt); if (!managed()) return r_getsockopt(fd, l, o, v, n); if (!sk(fd)) { errno = EBADF; return -1; } memset(v, 0, *n); return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t n) {
    REAL(bind); if (!managed()) return r_bind(fd, a, n);
    SP s = sk(fd); if (!s) { errno = EBADF; return -1; }
    Q q; int port = ntohs(((struct sockaddr_in*)a)->sin_port);
    if (g_port->count(port)) { errno = EADDRINUSE; return -1; }
    s->port = port; s->bound = true; return 0;
}
int listen(int fd, int) __THROW {
    REAL(listen); if (!managed()) return r_listen(fd, 5);
    SP s = sk(fd); if (!s) { errno = EBADF; return -1; }
    Q q; if (g_port->count(s->port)) { errno = EADDRINUSE; return -1; }
    s->listening = true; (*g_port)[s->port] = s; return 0;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
    REAL(accept); if (!managed()) return r_accept(fd, a, n);
    sync_point();
    SP s = sk(fd); if (!s) { errno = EBADF; return -1; }
    InFlight f(s);
    for (;;) {
        if (s->shut_rd || !s->listening) { errno = EINVAL; return -1; }
        if (interrupted()) return -1;
        if (!s->backlog.empty()) { Q q; SP c = s->backlog.front(); s->backlog.pop_front(); if (a && n) memset(a, 0, *n); return add_fd(c); }
        block_on([s] { return s->shut_rd || !s->listening || !s->backlog.empty(); }, "accept");
    }
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) { REAL(accept4); if (!managed()) return r_accept4(fd, a, n, fl); return accept(fd, a, n); }
int connect(int fd, const struct sockaddr* a, socklen_t n) {
    REAL(connect); if (!managed()) return r_connect(fd, a, n);
    sync_point();
    SP s = sk(fd); if (!s) { errno = EBADF; return -1; }
    Q q; int port = ntohs(((struct sockaddr_in*)a)->sin_port);
    auto i = g_port->find(port);
    if (i == g_port->end() || !i->second->listening || i->second->shut_rd) { errno = ECONNREFUSED; return -1; }
    SP p = std::make_shared<Sock>();
    static const size_t caps[] = {1, 16, 64, 256, 1024, 65536};
    p->cap = caps[g_net.next() % 6]; s->cap = caps[g_net.next() % 6];
    p->connected = s->connected = true; p->peer = s; s->peer = p; p->conn = s->conn = ++g_conns;
    i->second->backlog.push_back(p);
    return 0;
}
ssize_t send(int fd, const void* b, size_t n, int fl) { REAL(send); if (!managed()) return r_send(fd, b, n, fl); SP s = sk(fd); if (!s) { errno = EBADF; return -1; } return vsend(s, b, n, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { REAL(sendto); if (!managed()) return r_sendto(fd, b, n, fl, a, l); SP s = sk(fd); if (!s) { errno = EBADF; return -1; } return vsend(s, b, n, fl); }
ssize_t recv(int fd, void* b, size_t n, int fl) { REAL(recv); if (!managed()) return r_recv(fd, b, n, fl); SP s = sk(fd); if (!s) { errno = EBADF; return -1; } return vrecv(s, b, n, fl); }
ssize_t read(int fd, void* b, size_t n) { REAL(read); SP s; if (!managed() || !(s = sk(fd))) return r_read(fd, b, n); return vrecv(s, b, n, 0); }
ssize_t write(int fd, const void* b, size_t n) { REAL(write); SP s; if (!managed() || !(s = sk(fd))) return r_write(fd, b, n); return vsend(s, b, n, 0); }
int shutdown(int fd, int how) __THROW {
    REAL(shutdown); if (!managed()) return r_shutdown(fd, how);
    sync_point();
    SP s = sk(fd); if (!s) { errno = EBADF; return -1; }
    { Q q;
      if (s->listening) { s->shut_rd = true; if (g_port->count(s->port) && (*g_port)[s->port] == s) g_port->erase(s->port);
        for (auto& b : s->backlog) if (SP p = b->peer.lock()) { p->peer_fin = true; p->rst = true; }
        s->backlog.clear(); }
      else {
        if (!s->connected) { errno = ENOTCONN; return -1; }
        if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
        if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = true; send_fin(s); }
      } }
    sync_point();
    return 0;
}
int close(int fd) {
    REAL(close);
    if (!managed()) return r_close(fd);
    SP s = sk(fd);
    if (!s) { if (fd < 0 || fd >= FD0) { errno = EBADF; return -1; } return r_close(fd); }
    sync_point();
    { Q q;
      if (!g_fd->count(fd)) { errno = EBADF; return -1; }
      s = (*g_fd)[fd]; g_fd->erase(fd); s->fdclosed = true; maybe_release(s); }
    sync_point();
    return 0;
}
static short vready(struct pollfd& p, SP s) {
    short r = 0;
    if ((p.events & POLLIN) && (!s->in.empty() || s->peer_fin || s->shut_rd || !s->backlog.empty())) r |= POLLIN;
    SP pe = s->peer.lock();
    if ((p.events & POLLOUT) && (!pe || pe->in.size() < pe->cap || s->rst)) r |= POLLOUT;
    if (s->shut_rd && s->shut_wr) r |= POLLHUP;
    return r;
}
int poll(struct pollfd* f, nfds_t n, int to) {
    REAL(poll); if (!managed()) return r_poll(f, n, to);
    sync_point();
    auto scan = [f, n] { int c = 0; for (nfds_t i = 0; i < n; i++) { SP s = sk(f[i].fd); f[i].revents = s ? vready(f[i], s) : POLLNVAL; if (f[i].revents) c++; } return c; };
    int c = scan();
    if (c || to == 0) return c;
    block_on([scan] { return scan() > 0; }, "poll", to < 0 ? -1 : (int64_t)(g_time + to * 1000000ull));
    return scan();
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
    REAL(select); if (!managed()) return r_select(n, r, w, e, tv);
    sync_point();
    errno = ENOSYS; vs::fatal("Unsupported", "select");
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    static auto r = real<int (*)(int, int, ...)>("fcntl");
    if (managed() && sk(fd)) return 0;
    return r(fd, cmd, a);
}
}
