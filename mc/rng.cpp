// C28: random utilities over every (or every boundary) generator output; generator copies under every
// interleaving of draws up to a depth.
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>

#include "core/cft.hpp"
#include "mc.hpp"
#include "utils/random.hpp"

using namespace mc;

// A generator with chosen outputs.
template <typename T>
struct Stub {
    using result_type = T;
    T v;
    static constexpr T min() { return 0; }
    static constexpr T max() { return std::numeric_limits<T>::max(); }
    T operator()() { return v; }
};

template <typename Fl, typename G>
static void canon_one(G out, uint64_t& bad) {
    Stub<G>           s{out};
    Fl const          c = cft::canonical_gen<Fl>(s);
    long double const f = static_cast<long double>(out) / (sizeof(G) == 4 ? 4294967296.0L : 18446744073709551616.0L);
    long double const e = std::fabs(static_cast<long double>(c) - f);
    if (!(c >= Fl(0) && c < Fl(1) && e <= static_cast<long double>(std::numeric_limits<Fl>::epsilon())) && bad++ == 0)
        fail(strf("canonical real %.20Lg (%zu bytes) from generator output %llu of %zu bits", static_cast<long double>(c), sizeof(Fl), (unsigned long long)out, sizeof(G) * 8));
}

static void canonical() {
    // 32-bit generators: every output
    uint64_t const step = 1;
    for (uint32_t top = 0; top < 256; ++top) {
        if (!take([=] { return strf("canonical reals, all 32-bit outputs 0x%02x......", top); }))
            continue;
        uint64_t bad = 0;
        for (uint64_t lo = 0; lo < (1u << 24); lo += step) {
            uint32_t const o = (top << 24) | static_cast<uint32_t>(lo);
            canon_one<float, uint32_t>(o, bad);
            canon_one<double, uint32_t>(o, bad);
            if (thorough() || (lo & 15) == 0)
                canon_one<long double, uint32_t>(o, bad);
        }
        transition(2 * (1u << 24));
        validated(2 * (1u << 24));
        for (uint32_t k = 0; k < 256; ++k)
            state(mix(top, k));
    }
    // 64-bit generators: every value of the leading bits with all-zero, all-one and mixed low bits
    int const lead = thorough() ? 26 : 22;
    for (uint32_t top = 0; top < 256; ++top) {
        if (!take([=] { return strf("canonical reals, 64-bit outputs 0x%02x.., %d leading bits in full", top, lead); }))
            continue;
        uint64_t bad = 0;
        for (uint64_t mid = 0; mid < (1ull << (lead - 8)); ++mid) {
            uint64_t const h = (static_cast<uint64_t>(top) << 56) | (mid << (64 - lead));
            uint64_t const m = (1ull << (64 - lead)) - 1;
            uint64_t const lows[] = {0, m, 1, m - 1, m >> 1, (m >> 1) + 1, m & ~0x7ffull, m & ~0xffull, 0x3ff, 0x400};
            for (uint64_t low : lows) {
                canon_one<float, uint64_t>(h | low, bad);
                canon_one<double, uint64_t>(h | low, bad);
                canon_one<long double, uint64_t>(h | low, bad);
                transition(3);
            }
        }
        validated();
        state(mix(99, top));
    }
}

static void reals() {
    float const lims[] = {0, 1, -1, 0.5F, 0.9F, 1.1F, 2, 10, -10, 1e-3F, 1e6F, -1e6F, 16777216.0F, 1e30F, 3.14159F, 1e-30F, 1.0000001F};
    for (float a : lims)
        for (float b : lims) {
            if (!(a < b) || !take([=] { return strf("random reals in [%.9g,%.9g)", a, b); }))
                continue;
            uint64_t const n = thorough() ? 1u << 24 : 1u << 20;
            uint64_t       bad = 0;
            for (uint64_t k = 0; k < n; ++k) {
                uint32_t const o = static_cast<uint32_t>(k * ((1ull << 32) / n)) | (k & 1 ? static_cast<uint32_t>((1ull << 32) / n - 1) : 0u);
                Stub<uint32_t> s{o};
                float const    r = cft::rnd_real<float>(s, a, b);
                // one rounding step of the larger magnitude
                float const st = std::nextafter(std::max(std::fabs(a), std::fabs(b)), INFINITY) - std::max(std::fabs(a), std::fabs(b));
                if (!(r >= a - st && r <= b + st) && bad++ == 0)
                    fail(strf("rnd_real(%.9g,%.9g) = %.9g for output %u", a, b, r, o));
                Stub<uint64_t> s64{(static_cast<uint64_t>(o) << 32) | (k & 2 ? 0xffffffffull : 0)};
                double const   d  = cft::rnd_real<double>(s64, static_cast<double>(a), static_cast<double>(b));
                double const   sd = std::ldexp(std::max(std::fabs((double)a), std::fabs((double)b)), -51);
                if (!(d >= a - sd && d <= b + sd) && bad++ == 0)
                    fail(strf("rnd_real(%.17g,%.17g) = %.17g", (double)a, (double)b, d));
                // the position inside the range follows the generator
                double const pos = static_cast<double>(o) / 4294967296.0;
                if (std::fabs(r - (a + (static_cast<double>(b) - a) * pos)) > 4 * static_cast<double>(st) + 1e-6 * (static_cast<double>(b) - a) && bad++ == 0)
                    fail(strf("rnd_real(%.9g,%.9g) = %.9g is not at position %.9g of its range", a, b, r, pos));
            }
            transition(2 * n);
            validated(2 * n);
            state(hash_bytes(&a, 4, hash_bytes(&b, 4)));
        }
}

template <typename I, typename G>
static void dice_one(I lo, I hi) {
    transition();
    long long const size = static_cast<long long>(hi) - static_cast<long long>(lo) + 1;
    std::vector<char> hit(size <= 4096 ? static_cast<size_t>(size) : 0, 0);
    uint64_t          bad = 0;
    auto              one = [&](G o) {
        Stub<G> s{o};
        I const r = cft::roll_dice<I>(s, lo, hi);
        if (!(lo <= r && r <= hi)) {
            if (bad++ == 0)
                fail(strf("roll_dice(%lld,%lld) = %lld for output %llu", (long long)lo, (long long)hi, (long long)r, (unsigned long long)o));
        } else if (!hit.empty())
            hit[static_cast<size_t>(static_cast<long long>(r) - static_cast<long long>(lo))] = 1;
    };
    G const mx = std::numeric_limits<G>::max();
    for (long long k = 0; k < std::min(2 * size + 2, 9000LL); ++k)
        one(static_cast<G>(k));
    for (long long k = 0; k < std::min(size, 4096LL); ++k) {  // evenly spread outputs
        one(static_cast<G>(static_cast<unsigned __int128>(mx) * static_cast<unsigned long long>(2 * k + 1) / static_cast<unsigned long long>(2 * std::min(size, 4096LL))));
        one(static_cast<G>(mx - static_cast<G>(k)));
    }
    for (size_t k = 0; k < hit.size(); ++k)
        if (!hit[k]) {
            fail(strf("roll_dice(%lld,%lld) never gives %lld", (long long)lo, (long long)hi, (long long)lo + static_cast<long long>(k)));
            break;
        }
    state(mix(mix(static_cast<uint64_t>(lo), static_cast<uint64_t>(hi)), sizeof(I)));
    validated();
}

template <typename I>
static void dice_small(char const* tn) {
    for (long long lo = std::numeric_limits<I>::min(); lo <= std::numeric_limits<I>::max(); ++lo) {
        if (!take([=] { return strf("dice %s from %lld to everything above", tn, lo); }))
            continue;
        for (long long hi = lo; hi <= std::numeric_limits<I>::max() && hi - lo + 1 <= std::numeric_limits<I>::max(); ++hi) {
            dice_one<I, uint32_t>(static_cast<I>(lo), static_cast<I>(hi));
            dice_one<I, uint64_t>(static_cast<I>(lo), static_cast<I>(hi));
        }
    }
}

template <typename I>
static void dice_big(char const* tn) {
    long long const v[] = {0, 1, 2, 5, 6, 7, 99, 100, 255, 256, 1000, 32766, 1000000, 2147483646LL, -1, -2, -5, -100, -1000, -1000000};
    for (long long a : v)
        for (long long b : v) {
            if (a > b || b - a + 1 > static_cast<long long>(std::min<unsigned long long>(std::numeric_limits<I>::max(), INT64_MAX)))
                continue;
            if (a < static_cast<long long>(std::numeric_limits<I>::min()) || (sizeof(I) < 8 && b > static_cast<long long>(std::numeric_limits<I>::max())))
                continue;
            if (!take([=] { return strf("dice %s from %lld to %lld", tn, a, b); }))
                continue;
            dice_one<I, uint64_t>(static_cast<I>(a), static_cast<I>(b));
            if (b - a + 1 <= UINT32_MAX)
                dice_one<I, uint32_t>(static_cast<I>(a), static_cast<I>(b));
        }
}

static void coins() {
    double const ps[] = {0, 1, 0.5, 0.25, 0.75, 0.1, 0.9, 1.0 / 3, 1e-9, 1 - 1e-9, 0.999};
    for (double p : ps) {
        if (!take([=] { return strf("coin with probability %.17g, every 32-bit output", p); }))
            continue;
        uint64_t yes = 0;
        uint64_t const n = 1ull << 32, st = thorough() || p == 0 || p == 1 ? 1 : 16;
        for (uint64_t o = 0; o < n; o += st) {
            Stub<uint32_t> s{static_cast<uint32_t>(o)};
            yes += cft::coin_flip(s, p);
        }
        double const share = static_cast<double>(yes) / static_cast<double>(n / st);
        MC_CHECK(p != 0 || yes == 0, "a coin of probability 0 succeeds for %llu outputs", (unsigned long long)yes);
        MC_CHECK(p != 1 || yes == n, "a coin of probability 1 fails for %llu outputs", (unsigned long long)(n - yes));
        MC_CHECK(std::fabs(share - p) <= 1e-8 * static_cast<double>(st), "a coin of probability %.12g succeeds for a share %.12g of the outputs", p, share);
        for (uint64_t o : {uint64_t(0), ~uint64_t(0), uint64_t(1) << 63, uint64_t(1)}) {
            Stub<uint64_t> s{o};
            bool const     r = cft::coin_flip(s, p);
            MC_CHECK((p != 0 || !r) && (p != 1 || r), "a coin of probability %g gives %d for output %llu", p, r, (unsigned long long)o);
        }
        transition(n / st);
        validated(n / st);
        state(hash_bytes(&p, sizeof p));
    }
}

template <typename Gen>
static void seeds(char const* tn) {
    std::vector<uint64_t> sd;
    for (uint64_t s = 0; s < (thorough() ? 4096u : 256u); ++s)
        sd.push_back(s);
    for (int b = 8; b < 64; ++b)
        for (int d = -1; d <= 1; ++d)
            sd.push_back((1ull << b) + static_cast<uint64_t>(d));
    sd.push_back(~0ull);
    int const depth = thorough() ? 10 : 7;
    for (uint64_t s : sd) {
        if (!take([=] { return strf("%s seed %llu: equal seeds, and a copy after every prefix under every order of %d draws", tn, (unsigned long long)s, depth); }))
            continue;
        Gen                                    ref(s);
        std::vector<typename Gen::result_type> seq;
        for (int k = 0; k < 200; ++k)
            seq.push_back(ref());
        Gen g(s), other(s + 1), again(s);
        bool differs = false;
        for (int k = 0; k < 200; ++k) {
            auto x = g();
            auto y = other();  // drawing from another generator in between changes nothing
            MC_CHECK(x == seq[static_cast<size_t>(k)], "%s: two generators of seed %llu differ at draw %d", tn, (unsigned long long)s, k);
            MC_CHECK(x >= Gen::min() && x <= Gen::max(), "%s: output out of its stated range", tn);
            differs = differs || x != y;
        }
        MC_CHECK(differs, "%s: seeds %llu and %llu give the same sequence", tn, (unsigned long long)s, (unsigned long long)s + 1);
        for (size_t cut = 0; cut <= 6; ++cut) {
            Choices c;
            do {
                Gen a(s);
                for (size_t k = 0; k < cut; ++k)
                    a();
                Gen    b  = a;
                size_t pa = cut, pb = cut;
                for (int k = 0; k < depth; ++k) {
                    int const w = c.choose(k == 2 ? 3 : 2);
                    if (w == 0)
                        MC_CHECK(a() == seq[pa++], "%s seed %llu: the original changes when copied", tn, (unsigned long long)s);
                    else if (w == 1)
                        MC_CHECK(b() == seq[pb++], "%s seed %llu: a copy does not continue like the original", tn, (unsigned long long)s);
                    else {  // assignment from the other
                        a  = b;
                        pa = pb;
                    }
                    transition();
                    state(mix(mix(s, pa), pb));
                }
                validated();
            } while (c.next());
        }
        // the utilities draw from the generator only: same generator state, same results
        Gen u(s), v(s);
        for (int k = 0; k < 50; ++k) {
            MC_CHECK(cft::roll_dice<int>(u, 1, 6) == cft::roll_dice<int>(v, 1, 6) && cft::canonical_gen<double>(u) == cft::canonical_gen<double>(v) &&
                         cft::rnd_real<float>(u, 0.9F, 1.1F) == cft::rnd_real<float>(v, 0.9F, 1.1F) && cft::coin_flip(u, 0.5) == cft::coin_flip(v, 0.5),
                     "%s seed %llu: utilities differ for equal generators", tn, (unsigned long long)s);
            auto const r = cft::roll_dice<int>(u, -3, 3);
            MC_CHECK(r >= -3 && r <= 3, "roll_dice out of range");
            (void)cft::roll_dice<int>(v, -3, 3);
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    canonical();
    reals();
    dice_small<int8_t>("int8");
    dice_small<uint8_t>("uint8");
    dice_big<int16_t>("int16");
    dice_big<uint16_t>("uint16");
    dice_big<int>("int");
    dice_big<unsigned>("unsigned");
    dice_big<int64_t>("int64");
    dice_big<uint64_t>("uint64");
    coins();
    seeds<cft::Xoshiro128P>("xoshiro128+");
    seeds<cft::Xoshiro128PP>("xoshiro128++");
    seeds<cft::Xoshiro256P>("xoshiro256+");
    seeds<cft::Xoshiro256PP>("xoshiro256++");
    seeds<cft::prng_t>("prng_t");
    return finish();
}
