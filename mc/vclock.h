// Virtual clocks: every way in which a C++ program reads the time of day or a monotonic time is
// answered from the two variables below.  vwallStep is added to the wall clock at each reading.
#pragma once
#include <sys/time.h>
#include <time.h>
#include <chrono>
static long vsteady = 1000000000, vwall = 5000000000, vwallStep = 0;  // nanoseconds
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vsteady)); }
system_clock::time_point system_clock::now() noexcept { vwall += vwallStep; return time_point(duration(vwall)); }
} } }
extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    long n = vsteady;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = (vwall += vwallStep);
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept { vwall += vwallStep; t->tv_sec = vwall / 1000000000; t->tv_usec = vwall / 1000 % 1000000; return 0; }
int timespec_get(struct timespec* t, int base) noexcept { clock_gettime(CLOCK_REALTIME, t); return base; }
time_t time(time_t* t) noexcept { vwall += vwallStep; time_t s = vwall / 1000000000; if (t) *t = s; return s; }
}
