// A clock under the driver's control: every reading of a monotonic clock gives what the driver set.
#pragma once
#include <ctime>
#include <cstdint>
namespace vclock { static int64_t sec = 1, nsec = 0; static bool on = true; static long reads = 0; }
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
    vclock::reads++;
    if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE && c != CLOCK_TAI && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID) { ts->tv_sec = vclock::sec; ts->tv_nsec = vclock::nsec; return 0; }
    ts->tv_sec = 1700000000 - vclock::reads * 3; ts->tv_nsec = 7;      // the wall clock is set back again and again
    return 0;
}
