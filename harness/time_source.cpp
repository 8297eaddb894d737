// The clock and the delay on a virtual machine clock: every instant after start-up from a set that covers all carries,
// and every pattern of interrupted sleeps.
#include "vp.hpp"
#include "edyn/time/time.hpp"
#include <cerrno>
#include <cstdint>
#include <string>
#include <vector>
#include <sys/select.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

#ifndef START_NS
#define START_NS 0
#endif
#ifndef NO_MONOTONIC
#define NO_MONOTONIC 0
#endif

namespace {
typedef __int128 wide;
const int64_t start_ns = 1700000000LL * 1000000000LL + START_NS;   // the virtual time at which the library starts
int64_t now_ns = start_ns;                                         // the virtual time
int64_t clock_step = 0;                                            // what reading the clock costs

// How each sleep of a delay ends: -1 it completes, otherwise it is interrupted at this fraction.
std::vector<int> pattern;
size_t sleeps = 0;
const char *sleep_error = nullptr;

// Sleeps for `req` nanoseconds of virtual time. Returns the time left, or -1 when completed.
int64_t virtual_sleep(int64_t req) {
    int how = sleeps < pattern.size() ? pattern[sleeps] : -1;
    ++sleeps;
    if (sleeps > 100000) { sleep_error = "the delay does not end"; now_ns += 1000000000LL * 3600; return -1; }
    int64_t slept = how == 0 ? 0 : how == 1 ? std::min<int64_t>(1, req) : how == 2 ? req / 2 : how == 3 ? (req > 0 ? req - 1 : 0) : how == 4 ? req / 1000 * 999 : req;
    now_ns += slept;
    return how >= 0 ? req - slept : -1;
}
int64_t read_clock() { auto t = now_ns; now_ns += clock_step; return t; }
bool valid(const timespec *t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000L; }
}

extern "C" {
int clock_gettime(clockid_t, struct timespec *ts) noexcept {
    if (NO_MONOTONIC) { errno = EINVAL; return -1; }
    auto t = read_clock(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept { auto t = read_clock(); tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000; return 0; }
time_t time(time_t *p) noexcept { time_t t = read_clock() / 1000000000; if (p) *p = t; return t; }
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (!valid(req)) { errno = EINVAL; return -1; }
    auto left = virtual_sleep(int64_t(req->tv_sec) * 1000000000 + req->tv_nsec);
    if (left < 0) return 0;
    if (rem) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
    errno = EINTR; return -1;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *req, struct timespec *rem) {
    if (!valid(req)) return EINVAL;
    int64_t t = int64_t(req->tv_sec) * 1000000000 + req->tv_nsec;
    if (flags & TIMER_ABSTIME) { t -= now_ns; if (t < 0) t = 0; }
    auto left = virtual_sleep(t);
    if (left < 0) return 0;
    if (rem && !(flags & TIMER_ABSTIME)) { rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
    return EINTR;
}
int usleep(useconds_t us) { if (virtual_sleep(int64_t(us) * 1000) < 0) return 0; errno = EINTR; return -1; }
unsigned sleep(unsigned s) { auto left = virtual_sleep(int64_t(s) * 1000000000); return left < 0 ? 0 : unsigned(left / 1000000000); }
int select(int n, fd_set *, fd_set *, fd_set *, struct timeval *tv) {
    if (n != 0 || !tv) { errno = EINVAL; return -1; }
    auto left = virtual_sleep(int64_t(tv->tv_sec) * 1000000000 + int64_t(tv->tv_usec) * 1000);
    if (left < 0) { tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
    tv->tv_sec = left / 1000000000; tv->tv_usec = left % 1000000000 / 1000; errno = EINTR; return -1;
}
int poll(struct pollfd *, nfds_t n, int ms) {
    if (n != 0 || ms < 0) { errno = EINVAL; return -1; }
    if (virtual_sleep(int64_t(ms) * 1000000) < 0) return 0;
    errno = EINTR; return -1;
}
}

VP_SCENARIO(clocks) {
    // Instants around every carry: nanoseconds, microseconds, milliseconds, seconds, minutes, days.
    const int64_t ns = 1, us = 1000, ms = 1000000, s = 1000000000;
    std::vector<int64_t> base = {0, us, ms, 7 * ms, 999 * ms, s, s + ms, 59 * s, 60 * s, 3600 * s, 86400 * s, 1000000 * s, 4000000 * s, 4294967 * s};
    std::vector<int64_t> offs;
    for (int64_t k : {0, 1, 2, 499, 500, 999}) { offs.push_back(k * ns); offs.push_back(k * us); offs.push_back(k * ms); }
    const int64_t freq = int64_t(edyn::performance_frequency());
    VP_CHECK(freq >= 1000, "the counter's frequency is %lld", (long long)freq);
    now_ns = start_ns; auto c0 = edyn::performance_counter(); auto t0 = edyn::performance_time();
    for (auto b : base) for (auto o : offs) for (auto o2 : offs) for (int sign : {1, -1}) {
        int64_t e = b + o + sign * o2;
        if (e < 0 || e > 4294967295LL * ms) continue;
        if (!vp::begin()) continue;
        vp::describe("%lld ns after start, start at %d ns past the second", (long long)e, int(START_NS));
        vp::nontrivial(e >= ms); vp::states(); vp::transitions(4);
        now_ns = start_ns + e; clock_step = 0;
        auto t = edyn::ticks();
        // What the machine offers: whole nanoseconds, or whole microseconds where there is no monotonic clock.
        int64_t e1 = NO_MONOTONIC ? (now_ns / us - start_ns / us) * us : e;
        VP_CHECK(std::abs(double(int64_t(t)) - double(e1 / ms)) <= 1, "ticks() is %u after %lld.%06lld ms", t, (long long)(e / ms), (long long)(e % ms));
        auto c = edyn::performance_counter(); auto pt = edyn::performance_time();
        VP_CHECK(edyn::performance_frequency() == uint64_t(freq), "the counter's frequency changes");
        double got = double(int64_t(c - c0)) / double(freq), want = double(e) / 1e9;
        VP_CHECK(std::abs(got - want) < 2e-6 + want * 1e-9, "the counter advances by %.9f s in %.9f s", got, want);
        VP_CHECK(std::abs(pt - t0 - want) < 2e-6 + want * 1e-9, "the time advances by %.9f s in %.9f s", pt - t0, want);
        VP_CHECK(std::abs(pt - double(c) / double(freq)) < 1e-6, "the time is not the counter divided by its frequency");
        // A moment later.
        for (int64_t d : {int64_t(1), us, ms, s}) {
            now_ns = start_ns + e + d;
            if ((e + d) / ms > 4294967294LL) break;
            VP_CHECK(edyn::ticks() >= t && edyn::performance_counter() >= c && edyn::performance_time() >= pt, "time runs backwards within %lld ns", (long long)d);
        }
    }
}

static bool i_big(uint32_t m) { return m > 61 && m < 70001 && m % 500 > 1 && m % 1000 != 999; }
VP_SCENARIO(delays) {
    std::vector<uint32_t> mss;
    for (uint32_t i = 0; i <= 60; ++i) mss.push_back(i);
    for (uint32_t b : {100u, 250u, 500u, 999u, 1000u, 1001u, 1500u, 1999u, 2000u, 2001u, 59999u, 60000u, 86400000u, 1000000000u, 2147483647u, 2147483648u, 4294966u, 4294967u, 4294968u, 4294967295u}) mss.push_back(b);
    for (uint32_t i = 61; i <= (vp::thorough() ? 70000u : 3100u); ++i) mss.push_back(i);
    const int depth = vp::thorough() ? 7 : 6;
    for (auto m : mss) for (int len = 0; len <= (i_big(m) ? 2 : depth); ++len) {
        int total = 1; for (int i = 0; i < len; ++i) total *= 5;
        for (int code = 0; code < total; ++code) for (int64_t step : {int64_t(0), int64_t(700)}) {
            if (!vp::begin()) continue;
            pattern.clear(); for (int i = 0, c = code; i < len; ++i, c /= 5) pattern.push_back(c % 5);
            vp::describer() = [&] { std::string t = "delay of " + std::to_string(m) + " ms, interruptions"; for (auto p : pattern) t += " " + std::to_string(p); return t; };
            vp::nontrivial(m > 0 && len > 0); vp::states();
            now_ns = start_ns + 5 * 1000000000LL + 123456789; clock_step = step; sleeps = 0; sleep_error = nullptr;
            auto before = now_ns;
            edyn::delay(m);
            auto took = now_ns - before; clock_step = 0;
            VP_CHECK(!sleep_error, "%s", sleep_error);
            VP_CHECK(took >= int64_t(m) * 1000000, "the delay lasts %lld ns only, %zu sleeps", (long long)took, sleeps);
            VP_CHECK(took <= int64_t(m) * 1000000 + 2000000 * int64_t(len + 2), "the delay lasts %lld ns, %zu sleeps", (long long)took, sleeps);
            vp::transitions(sleeps);
            vp::describer() = nullptr;
        }
    }
}
