// Sequential cases: each batch runs in a forked child; a crash or sanitizer
// report becomes a "Crash" line of the case it happened in, and the next case
// continues in a fresh child.
#pragma once
#include "common.hpp"
#include <csignal>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
namespace seq {
struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
inline Rng& rng() { static Rng r; return r; }
inline uint64_t rnd() { return rng().next(); }
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
inline bool chance(int pct) { return (int)rnd(100) < pct; }
struct Shm { size_t len; uint64_t cur; int done; };
const size_t BUFSZ = 64u << 20;
inline char*& buf() { static char* b = nullptr; return b; }
inline Shm*& shm() { static Shm* s = nullptr; return s; }
inline void emit(const std::string& s) {
    if (shm()->len + s.size() + 1 > BUFSZ - 4096) _exit(98);
    memcpy(buf() + shm()->len, s.data(), s.size()); buf()[shm()->len + s.size()] = '\n'; shm()->len += s.size() + 1;
}
// fork_each: a fresh process for every case (for process-wide library state)
inline void run(const Args& a, bool fork_each, const std::function<void(uint64_t)>& fn, int case_alarm = 20) {
    FILE* out = fopen(a.out.c_str(), "w");
    buf() = (char*)mmap(nullptr, BUFSZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shm() = (Shm*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t c = a.first, end = a.first + a.count;
    int abnormal = 0;
    while (c < end && abnormal < 5) {
        shm()->len = 0; shm()->cur = c; shm()->done = 0;
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY); if (fd >= 0 && !getenv("VS_STDERR")) { dup2(fd, 2); close(fd); }
            for (uint64_t k = c; k < end; k++) {
                shm()->cur = k;
                alarm(case_alarm);
                rng().s = a.case_seed(k) * 5 + 2; for (int i = 0; i < 4; i++) rnd();
                emit(J("Case").i("n", k));
                fn(k);
                if (fork_each || shm()->len > BUFSZ / 2) { shm()->cur = k + 1; break; }
                if (k + 1 == end) shm()->cur = end;
            }
            shm()->done = 1;
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        fwrite(buf(), 1, shm()->len, out);
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0 || !shm()->done) {       // also a case that ends the process
            const char* e = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "Hang" : "Crash";
            fprintf(out, "{\"e\":\"%s\",\"why\":\"%s %d\"}\n", e, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            c = shm()->cur + 1; abnormal++;
        } else c = shm()->cur;
    }
    fclose(out);
}
}
