// Deterministic scheduler runtime: one managed thread runs at a time; every
// instrumented memory access, lock, condition variable, thread, clock and
// socket operation of the code under test is a scheduling point.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>

namespace vs {

struct Result { int status; bool crashed; };

// Runs fn as managed thread 0 in a forked child under the schedule chosen by
// seed; appends the trace lines to out.  first is the line that opens the case.
void run_case(FILE* out, uint64_t seed, const std::string& first, const std::function<void()>& fn);

void emit(const std::string& line);          // append a trace line (atomic)
[[noreturn]] void fatal(const char* ev, const std::string& detail);
uint64_t rnd();                              // scenario randomness (per case)
inline uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
int self();                                  // managed thread number, -1 if unmanaged
void point();                                // explicit scheduling point
void block(const std::function<bool()>& ready, const char* why);
void advance(uint64_t ns);                   // virtual time
uint64_t now();
size_t live_blocks();                        // blocks allocated by managed code and not freed
int open_sockets();
int conn_id(int fd);                         // number of the connection a socket belongs to
extern bool g_eintr;                         // calls on sockets may be interrupted by signals
extern bool g_trace_alloc;
struct Quiet { Quiet(); ~Quiet(); };         // no scheduling, no interposition inside
}
