// Replaces the solver's random generator by one whose outputs the harness chooses.
// Must be included before any header of the library.
#ifndef MC_CHOOSER_PRNG_HPP
#define MC_CHOOSER_PRNG_HPP
#include <cstdint>
#include <vector>

#include "utils/random.hpp"

namespace mc {
struct RngPlan {
    // output = base pattern, except at position dev_pos (and dev_pos2) where dev_val is returned
    int      base     = 1;  // 0: minimum, 1: middle, 2: maximum, 3: alternate minimum/maximum
    int64_t  dev_pos  = -1, dev_pos2 = -1;
    int      dev_val  = 0, dev_val2 = 0;
    uint64_t draws    = 0;
};

inline RngPlan& rng_plan() {
    static RngPlan p;
    return p;
}

struct ChooserPrng {
    using result_type = uint32_t;
    uint64_t seed;

    explicit ChooserPrng(uint64_t s = 0)
        : seed(s) {
    }

    static constexpr result_type min() {
        return 0;
    }

    static constexpr result_type max() {
        return 0xffffffffU;
    }

    result_type operator()() {
        auto&         p = rng_plan();
        int64_t const d = static_cast<int64_t>(p.draws++);
        int           v = p.base == 3 ? (d % 2 ? 2 : 0) : p.base;
        if (d == p.dev_pos)
            v = p.dev_val;
        if (d == p.dev_pos2)
            v = p.dev_val2;
        return v == 0 ? 0U : v == 1 ? 0x80000000U : 0xffffffffU;
    }
};
}  // namespace mc

namespace cft {
template <>
struct prng_picker<float> {
    using type = mc::ChooserPrng;
};
}  // namespace cft
#endif
