// Virtual clock: every way of reading the time ends here, so that the harness decides at which
// observation a time limit expires. Include in exactly one translation unit.
#ifndef MC_VCLOCK_HPP
#define MC_VCLOCK_HPP
#include <sys/time.h>
#include <time.h>

#include <cstdint>

namespace mc {
struct VClock {
    uint64_t queries   = 0;            // observations so far
    uint64_t expire_at = ~0ULL;        // from this observation on, the time is far in the future
    uint64_t step_ns   = 0;            // advance per observation
    void (*on_query)() = nullptr;

    void reset(uint64_t exp = ~0ULL) {
        queries   = 0;
        expire_at = exp;
    }

    bool expired() const {
        return queries > expire_at;
    }

    uint64_t now_ns() {
        uint64_t const q = queries++;
        if (on_query)
            on_query();
        uint64_t t = 1000000000000ULL + q * step_ns;
        if (q >= expire_at)
            t += 4000000000ULL * 1000000000ULL;
        return t;
    }
};

inline VClock& vclock() {
    static VClock c;
    return c;
}
}  // namespace mc

extern "C" {
__attribute__((visibility("default"), no_sanitize("address"))) int clock_gettime(clockid_t, struct timespec* ts) noexcept {
    uint64_t const t = mc::vclock().now_ns();
    ts->tv_sec       = static_cast<time_t>(t / 1000000000ULL);
    ts->tv_nsec      = static_cast<long>(t % 1000000000ULL);
    return 0;
}

__attribute__((visibility("default"), no_sanitize("address"))) int gettimeofday(struct timeval* tv, void*) noexcept {
    uint64_t const t = mc::vclock().now_ns();
    tv->tv_sec       = static_cast<time_t>(t / 1000000000ULL);
    tv->tv_usec      = static_cast<long>(t % 1000000000ULL / 1000);
    return 0;
}

__attribute__((visibility("default"), no_sanitize("address"))) time_t time(time_t* p) noexcept {
    time_t const t = static_cast<time_t>(mc::vclock().now_ns() / 1000000000ULL);
    if (p)
        *p = t;
    return t;
}

__attribute__((visibility("default"), no_sanitize("address"))) clock_t clock() noexcept {
    return static_cast<clock_t>(mc::vclock().now_ns() / 1000ULL);
}
}
#endif
