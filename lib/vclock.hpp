// Virtual clock: replaces the time functions for the whole process (explorer uses raw system calls).
#pragma once
#include <time.h>
#include <sys/time.h>
namespace vclock { static int64_t now_us = 1000000ll * 1000000; inline int64_t sec() { return now_us / 1000000; } }
extern "C" {
time_t time(time_t *t) noexcept { time_t v = vclock::now_us / 1000000; if (t) *t = v; return v; }
int clock_gettime(clockid_t, struct timespec *ts) noexcept { ts->tv_sec = vclock::now_us / 1000000; ts->tv_nsec = vclock::now_us % 1000000 * 1000; return 0; }
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept { tv->tv_sec = vclock::now_us / 1000000; tv->tv_usec = vclock::now_us % 1000000; return 0; }
}
