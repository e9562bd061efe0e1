// C29: checked casts between all numeric types, and the small range helpers, against their definition.
//   --mode casts  every pair of types, every (8/16-bit) or every boundary value
//   --mode helpers  minimum, maximum, clamp, absolute value, any/all, range_min, remove_if, sort, nth_element
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <limits>
#include <set>
#include <string>
#include <vector>

#include "core/cft.hpp"
#include "mc.hpp"
#include "utils/Span.hpp"
#include "utils/sort.hpp"
#include "utils/utility.hpp"

using namespace mc;
typedef __int128 big;

// A user-defined scalar, as the library allows for its basic types.
template <typename T>
struct Boxed {
    T v;
    constexpr Boxed() : v() {}
    constexpr explicit Boxed(T x) : v(x) {}
    constexpr operator T() const { return v; }
};
namespace cft {
template <typename T>
struct native<Boxed<T>> {
    using type = T;
};
}  // namespace cft

template <typename T> struct Name;
#define NAME(T) template <> struct Name<T> { static char const* s() { return #T; } };
NAME(int8_t) NAME(uint8_t) NAME(int16_t) NAME(uint16_t) NAME(int32_t) NAME(uint32_t) NAME(int64_t) NAME(uint64_t)
NAME(float) NAME(double) NAME(long double)
NAME(Boxed<int8_t>) NAME(Boxed<uint16_t>) NAME(Boxed<int32_t>) NAME(Boxed<float>)

static std::string bigstr(big b) {
    return b < 0 ? strf("-%llu", (unsigned long long)(-b)) : strf("%llu", (unsigned long long)b);
}

// ---- boundary values ----
template <typename T, bool INT = std::numeric_limits<T>::is_integer>
struct Values {
    static std::vector<T> all() {
        std::vector<T> out;
        big const      lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
        if (sizeof(T) <= 2) {
            for (big x = lo; x <= hi; ++x)
                out.push_back(static_cast<T>(x));
            return out;
        }
        std::set<uint64_t> seen;
        auto               add = [&](big x) {
            if (x >= lo && x <= hi && seen.insert(static_cast<uint64_t>(x)).second)
                out.push_back(static_cast<T>(x));
        };
        int const w = thorough() ? 300 : 40;
        for (int k = 0; k <= 64; ++k)
            for (int d = -w; d <= w; ++d) {
                add((big(1) << k) + d);
                add(-(big(1) << k) + d);
            }
        for (int d = 0; d < w; ++d) {
            add(lo + d);
            add(hi - d);
        }
        // numbers whose significant bits just fit, and just do not fit, a mantissa
        for (int m : {24, 25, 53, 54, 64})
            for (int k = 0; k + m <= 64; ++k)
                for (big top : {(big(1) << m) - 1, (big(1) << (m - 1)) + 1})
                    for (int d = -1; d <= 1; ++d) {
                        add((top << k) + d);
                        add(-(top << k) + d);
                    }
        return out;
    }
};
template <typename T>
struct Values<T, false> {
    static std::vector<T> all() {
        std::vector<T> out;
        auto           add = [&](T x) {
            out.push_back(x);
            out.push_back(-x);
        };
        T const inf = std::numeric_limits<T>::infinity();
        add(0);
        add(inf);
        out.push_back(std::numeric_limits<T>::quiet_NaN());
        for (T x : {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon()}) {
            add(x);
            add(std::nextafter(x, T(0)));
            add(std::nextafter(x, inf));
        }
        for (T f : {T(0.1), T(0.25), T(0.5), T(0.75), T(0.999), T(1.5), T(2.5), T(3.14159), T(1e-30), T(1e10), T(1e30)})
            add(f);
        for (int i = 0; i <= (thorough() ? 70000 : 700); ++i) {
            add(T(i));
            add(T(i) + T(0.5));
        }
        for (int k = -140; k <= 130; ++k) {
            T const p = std::ldexp(T(1), k);
            T       a = p, b = p;
            add(p);
            for (int s = 0; s < 8; ++s) {
                add(a = std::nextafter(a, inf));
                add(b = std::nextafter(b, T(0)));
            }
            for (int d : {-3, -2, -1, 1, 2, 3}) {
                add(p + T(d));
                add(p + T(d) / 2);
            }
        }
        for (int k = 1000; k <= 1030; ++k)
            add(static_cast<T>(std::ldexp(1.0L, k)));
        return out;
    }
};

// ---- what a cast must do ----
template <typename R, bool RINT>
struct FromInt;
template <typename R>
struct FromInt<R, true> {
    static bool fits(big x) { return x >= std::numeric_limits<R>::min() && x <= std::numeric_limits<R>::max(); }
};
template <typename R>
struct FromInt<R, false> {
    static bool fits(big x) {  // at most as many significant bits as the mantissa has
        if (x < 0)
            x = -x;
        while (x != 0 && x % 2 == 0)
            x /= 2;
        return x < (big(1) << std::numeric_limits<R>::digits);
    }
};

template <typename R, typename S, bool SINT>
struct Oracle;
template <typename R, typename S>
struct Oracle<R, S, true> {
    static bool ok(S x) { return FromInt<R, std::numeric_limits<R>::is_integer>::fits(static_cast<big>(x)); }
    static bool same(S x, R r) { return static_cast<big>(r) == static_cast<big>(x); }
    static std::string str(S x) { return bigstr(static_cast<big>(x)); }
};
template <typename R, typename S>
struct Oracle<R, S, false> {
    static bool ok(S x) {
        if (std::isnan(x) || std::isinf(x))
            return false;
        if (std::numeric_limits<R>::is_integer) {
            if (std::fabs(x) >= S(1e25L))
                return false;
            // in the real interval [min, max]
            big const  t    = static_cast<big>(x);
            bool const frac = static_cast<S>(t) != x;
            big const  lo = static_cast<big>(std::numeric_limits<R>::lowest()), hi = static_cast<big>(std::numeric_limits<R>::max());
            if (x >= 0)
                return t < hi || (t == hi && !frac);
            return t > lo || (t == lo && !frac);
        }
        return std::fabs(static_cast<long double>(x)) <= static_cast<long double>(std::numeric_limits<R>::max());
    }
    static bool same(S x, R r) {
        if (std::numeric_limits<R>::is_integer)
            return static_cast<big>(r) == static_cast<big>(x);
        // nearest representable number
        long double const e = std::fabs(static_cast<long double>(r) - static_cast<long double>(x));
        long double const u = std::fabs(static_cast<long double>(std::nextafter(r, R(0))) - static_cast<long double>(r));
        long double const v = std::fabs(static_cast<long double>(std::nextafter(r, r < 0 ? -std::numeric_limits<R>::infinity() : std::numeric_limits<R>::infinity())) - static_cast<long double>(r));
        return e == 0 || (e <= std::max(u, v) / 2 && std::numeric_limits<R>::digits < std::numeric_limits<S>::digits);
    }
    static std::string str(S x) { return strf("%.21Lg", static_cast<long double>(x)); }
};

template <typename Res, typename Src>
static void pair_of() {
    using R = cft::native_t<Res>;
    using S = cft::native_t<Src>;
    using O = Oracle<R, S, std::numeric_limits<S>::is_integer>;
    auto const  vals  = Values<S>::all();
    size_t const chunk = 4096;
    for (size_t b = 0; b < vals.size(); b += chunk) {
        if (!take([=] { return strf("cast %s to %s, values %zu..", Name<Src>::s(), Name<Res>::s(), b); }))
            continue;
        int bad = 0;
        for (size_t k = b; k < std::min(vals.size(), b + chunk); ++k) {
            S const    x      = vals[k];
            bool const want   = O::ok(x);
            bool       threw  = false;
            R          r      = R();
            transition();
            try {
                Src volatile const* p = nullptr;
                (void)p;
                S volatile hidden = x;  // no constant folding
                r                 = static_cast<R>(cft::checked_cast<Res>(Src(S(hidden))));
            } catch (std::exception const&) { threw = true; }
            if (threw == want && bad++ < 2)
                fail(strf("cast of %s from %s to %s %s", O::str(x).c_str(), Name<Src>::s(), Name<Res>::s(), want ? "is refused" : "is accepted"));
            else if (!threw && want && !O::same(x, r) && bad++ < 2)
                fail(strf("cast of %s from %s to %s gives another value", O::str(x).c_str(), Name<Src>::s(), Name<Res>::s()));
            validated();
            state(mix(hash_bytes(&x, std::min<size_t>(sizeof x, 10)), hash_bytes(Name<Res>::s(), 3, sizeof(S) + 100 * std::numeric_limits<S>::is_signed)));
        }
    }
}

template <typename Src>
static void to_all() {
    pair_of<int8_t, Src>();
    pair_of<uint8_t, Src>();
    pair_of<int16_t, Src>();
    pair_of<uint16_t, Src>();
    pair_of<int32_t, Src>();
    pair_of<uint32_t, Src>();
    pair_of<int64_t, Src>();
    pair_of<uint64_t, Src>();
    pair_of<float, Src>();
    pair_of<double, Src>();
    pair_of<long double, Src>();
    pair_of<Boxed<int8_t>, Src>();
    pair_of<Boxed<uint16_t>, Src>();
    pair_of<Boxed<int32_t>, Src>();
    pair_of<Boxed<float>, Src>();
}

// The library's own shorthands use its configured types.
static void shorthands() {
    if (!take([] { return std::string("as_cidx, as_ridx, csize, rsize at the limits of the index types"); }))
        return;
    auto refuses = [](std::function<void()> f) {
        try {
            f();
        } catch (std::exception const&) { return true; }
        return false;
    };
    for (long long x : {-1LL, 0LL, 1LL, 127LL, 128LL, 255LL, 256LL, 32766LL, 32767LL, 32768LL, 65535LL, 65536LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, -32768LL, -32769LL, -2147483648LL, -2147483649LL}) {
        bool const c = x >= std::numeric_limits<cft::cidx_t>::min() && x <= std::numeric_limits<cft::cidx_t>::max();
        bool const r = x >= std::numeric_limits<cft::ridx_t>::min() && x <= std::numeric_limits<cft::ridx_t>::max();
        MC_CHECK(refuses([=] { MC_CHECK(cft::as_cidx(x) == x, "as_cidx(%lld)", x); }) != c, "as_cidx(%lld)", x);
        MC_CHECK(refuses([=] { MC_CHECK(cft::as_ridx(x) == x, "as_ridx(%lld)", x); }) != r, "as_ridx(%lld)", x);
        if (x >= 0 && x <= 65536) {
            std::vector<char> v(static_cast<size_t>(x));
            MC_CHECK(refuses([&] { MC_CHECK(cft::rsize(v) == x, "rsize of %lld elements", x); }) != r, "rsize of %lld elements", x);
            MC_CHECK(refuses([&] { MC_CHECK(cft::csize(v) == x, "csize of %lld elements", x); }) != c, "csize of %lld elements", x);
        }
        transition(4);
    }
    validated();
}

// ---- helpers ----
template <typename T, typename F>
static bool throws(F f, T& out) {
    try {
        out = f();
        return false;
    } catch (std::exception const&) { return true; }
}

// two- and three-argument minimum and maximum over mixed types: the exact result whenever the first
// type can represent all arguments, refused otherwise
template <typename A, typename B>
static void minmax2(std::vector<A> const& as, std::vector<B> const& bs) {
    if (!take([] { return strf("min/max of %s and %s", Name<A>::s(), Name<B>::s()); }))
        return;
    int bad = 0;
    for (A a : as)
        for (B b : bs) {
            bool const fits = Oracle<A, B, std::numeric_limits<B>::is_integer>::ok(b);
            A          mx = A(), mn = A();
            bool const tx = throws([=] { return cft::max(a, b); }, mx), tn = throws([=] { return cft::min(a, b); }, mn);
            A const    bb = fits ? static_cast<A>(b) : A();
            if (((tx || tn) == fits || tx != tn || (fits && (mx != (a < bb ? bb : a) || mn != (bb < a ? bb : a)))) && bad++ < 2)
                fail(strf("min/max of %s %.9Lg and %s %.9Lg: refused %d/%d, min %.9Lg, max %.9Lg", Name<A>::s(), (long double)a, Name<B>::s(), (long double)b, tn, tx, (long double)mn, (long double)mx));
            transition(2);
            validated();
            state(mix(hash_bytes(&a, sizeof a), hash_bytes(&b, sizeof b)));
        }
}
template <typename A, typename B, typename C>
static void minmax3(std::vector<A> const& as, std::vector<B> const& bs, std::vector<C> const& cs) {
    if (!take([] { return strf("min/max of %s, %s and %s", Name<A>::s(), Name<B>::s(), Name<C>::s()); }))
        return;
    int bad = 0;
    for (A a : as)
        for (B b : bs)
            for (C c : cs) {
                bool const fits = Oracle<A, B, std::numeric_limits<B>::is_integer>::ok(b) && Oracle<A, C, std::numeric_limits<C>::is_integer>::ok(c);
                A          mx = A(), mn = A();
                bool const tx = throws([=] { return cft::max(a, b, c); }, mx), tn = throws([=] { return cft::min(a, b, c); }, mn);
                A const    bb = fits ? static_cast<A>(b) : A(), cc = fits ? static_cast<A>(c) : A();
                if (((tx || tn) == fits || tx != tn || (fits && (mx != std::max(a, std::max(bb, cc)) || mn != std::min(a, std::min(bb, cc))))) && bad++ < 2)
                    fail(strf("min/max of %s %.9Lg, %s %.9Lg, %s %.9Lg: refused %d/%d, min %.9Lg, max %.9Lg", Name<A>::s(), (long double)a, Name<B>::s(), (long double)b, Name<C>::s(), (long double)c, tn, tx, (long double)mn, (long double)mx));
                transition(2);
                validated();
            }
}

static void clamps() {
    for (int lo = -128; lo <= 127; ++lo) {
        if (!take([=] { return strf("clamp and abs of int8, lower limit %d", lo); }))
            continue;
        for (int hi = lo; hi <= 127; ++hi)
            for (int v = -128; v <= 127; ++v) {
                int const r = cft::clamp(static_cast<int8_t>(v), static_cast<int8_t>(lo), static_cast<int8_t>(hi));
                int const w = v < lo ? lo : v > hi ? hi : v;
                int const i = cft::clamp(v, static_cast<int8_t>(lo), static_cast<long long>(hi));
                double const d = cft::clamp(v * 0.5, lo, hi);
                double const e = v * 0.5 < lo ? lo : v * 0.5 > hi ? hi : v * 0.5;
                MC_CHECK(r == w && i == w && d == e, "clamp(%d,%d,%d) = %d, %d; of halves %g", v, lo, hi, r, i, d);
            }
        if (lo > -128)
            MC_CHECK(cft::abs(static_cast<int8_t>(lo)) == std::abs(lo) && cft::abs(lo) == std::abs(lo) && cft::abs(lo * 0.25F) == std::fabs(lo * 0.25F) && cft::abs(lo * 1e300) == std::fabs(lo * 1e300) &&
                         cft::abs(static_cast<long long>(lo) << 40) == std::llabs(static_cast<long long>(lo) << 40),
                     "abs(%d)", lo);
        transition(256 * 256);
        validated();
        state(mix(77, static_cast<uint64_t>(lo + 128)));
    }
}

struct Item {
    int key, tag;
    bool operator==(Item const& o) const { return key == o.key && tag == o.tag; }
};

static void arrays_one(std::vector<int> const& ks) {
    std::vector<Item> in;
    for (size_t i = 0; i < ks.size(); ++i)
        in.push_back({ks[i], static_cast<int>(i)});
    auto const neg   = [](Item const& x) { return -x.key; };
    auto const pos   = [](Item const& x) { return x.key; };
    auto const multi = [](std::vector<Item> v) {
        std::sort(v.begin(), v.end(), [](Item a, Item b) { return a.tag < b.tag; });
        return v;
    };
    // any / all
    for (int t = 0; t < 4; ++t) {
        bool wa = false, wl = true;
        for (auto k : ks) {
            wa = wa || k == t;
            wl = wl && k == t;
        }
        int        calls = 0;
        bool const a = cft::any(in, [&](Item const& x) { return calls++, x.key == t; }), l = cft::all(in, [&](Item const& x) { return x.key == t; });
        MC_CHECK(a == wa && l == wl, "any/all of key %d: %d/%d", t, a, l);
        MC_CHECK(cft::any(ks, [&](int x) { return x == t; }) == wa, "any over numbers");
        // removal keeps the others in their order
        auto v = in;
        cft::remove_if(v, [&](Item const& x) { return x.key == t; });
        std::vector<Item> w;
        for (auto const& x : in)
            if (x.key != t)
                w.push_back(x);
        MC_CHECK(v == w, "remove_if of key %d leaves %zu of %zu elements, expected %zu", t, v.size(), in.size(), w.size());
        v = in;
        cft::remove_if(v, [&](Item const& x) { return x.tag % 2 == t % 2; });
        w.clear();
        for (auto const& x : in)
            if (x.tag % 2 != t % 2)
                w.push_back(x);
        MC_CHECK(v == w, "remove_if by position");
        transition(4);
    }
    MC_CHECK(!cft::any(in, [](Item const&) { return false; }) && cft::all(in, [](Item const&) { return true; }) &&
                 cft::any(in, [](Item const&) { return true; }) == !in.empty(),
             "constant predicates");
    // sorting
    {
        auto v = in;
        cft::sort(v, pos);
        auto w = in;
        cft::sort(w, neg);
        bool ok = multi(v) == in && multi(w) == in;
        for (size_t i = 1; i < v.size(); ++i)
            ok = ok && v[i - 1].key <= v[i].key && w[i - 1].key >= w[i].key;
        MC_CHECK(ok, "sort by key");
        auto n = ks;
        cft::sort(n);
        auto m = ks;
        std::sort(m.begin(), m.end());
        MC_CHECK(n == m, "sort without key");
        // through a view over part of the data
        if (in.size() >= 2) {
            auto u  = ks;
            auto sp = cft::make_span(u.begin(), u.end() - 1);
            cft::sort(sp);
            auto x = ks;
            std::sort(x.begin(), x.end() - 1);
            MC_CHECK(u == x, "sort of a view");
        }
        transition(3);
    }
    // partial sorting and minimum
    std::vector<int> sorted = ks;
    std::sort(sorted.begin(), sorted.end());
    for (size_t n = 0; n < in.size(); ++n) {
        auto v = in;
        cft::nth_element(v, n, pos);
        bool ok = multi(v) == in && v[n].key == sorted[n];
        for (size_t i = 0; i < n; ++i)
            ok = ok && v[i].key <= v[n].key;
        for (size_t i = n; i < v.size(); ++i)
            ok = ok && v[i].key >= v[n].key;
        MC_CHECK(ok, "nth_element(%zu)", n);
        auto w = in;
        cft::nth_element(w, n, neg);
        MC_CHECK(multi(w) == in && w[n].key == sorted[in.size() - 1 - n], "nth_element(%zu), descending", n);
        auto u = ks;
        cft::nth_element(u, n);
        MC_CHECK(u[n] == sorted[n], "nth_element(%zu) without key", n);
        transition(3);
    }
    if (!in.empty()) {
        Item const m = cft::range_min(in, pos);
        size_t     first = 0;
        while (ks[first] != sorted[0])
            ++first;
        MC_CHECK(m.key == sorted[0] && in[static_cast<size_t>(m.tag)] == m, "range_min gives key %d", m.key);
        (void)first;
        Item const x = cft::range_min(in, neg);
        MC_CHECK(x.key == sorted.back() && in[static_cast<size_t>(x.tag)] == x, "range_min with descending key gives %d", x.key);
        MC_CHECK(cft::range_min(ks) == sorted[0], "range_min without key");
        transition(3);
    } else {
        bool t = false;
        try {
            (void)cft::range_min(in, pos);
        } catch (std::exception const&) { t = true; }
        MC_CHECK(t, "range_min of an empty range is not refused");
    }
    state(hash_bytes(ks.data(), ks.size() * sizeof(int), ks.size()));
    validated();
}

static void arrays() {
    int const L = thorough() ? 9 : 7;
    for (int len = 0; len <= L; ++len) {
        std::vector<int> head(static_cast<size_t>(std::min(len, 3)), 0);
        do {
            if (take([=] { return strf("arrays of length %d over 4 keys starting %d %d %d", len, len > 0 ? head[0] : -1, len > 1 ? head[1] : -1, len > 2 ? head[2] : -1); })) {
                std::vector<int> tail(static_cast<size_t>(len - std::min(len, 3)), 0);
                do {
                    auto ks = head;
                    ks.insert(ks.end(), tail.begin(), tail.end());
                    arrays_one(ks);
                } while (odo(tail, 4));
            }
        } while (odo(head, 4));
    }
    // all permutations, and long arrays (beyond the insertion-sort threshold of the library sort)
    int const P = thorough() ? 9 : 7;
    for (int len = 1; len <= P; ++len)
        for (int f = 0; f < len; ++f) {
            if (!take([=] { return strf("all permutations of %d distinct keys starting with %d", len, f); }))
                continue;
            std::vector<int> rest;
            for (int i = 0; i < len; ++i)
                if (i != f)
                    rest.push_back(i);
            do {
                std::vector<int> ks(1, f);
                ks.insert(ks.end(), rest.begin(), rest.end());
                arrays_one(ks);
            } while (std::next_permutation(rest.begin(), rest.end()));
        }
    for (int len = 8; len <= (thorough() ? 200 : 70); ++len)
        for (int pat = 0; pat < 8; ++pat) {
            if (!take([=] { return strf("array of length %d, pattern %d, each rotation", len, pat); }))
                continue;
            std::vector<int> ks;
            for (int i = 0; i < len; ++i)
                ks.push_back(pat == 0 ? i : pat == 1 ? len - i : pat == 2 ? i % 3 : pat == 3 ? (i * 7) % len : pat == 4 ? (i < len / 2 ? i : len - i) : pat == 5 ? 1 : pat == 6 ? (i * i) % 17 : i == len / 2);
            for (int r = 0; r < len; ++r) {
                std::rotate(ks.begin(), ks.begin() + 1, ks.end());
                arrays_one(ks);
            }
        }
}

int main(int argc, char** argv) {
    init(argc, argv);
    if (arg("--mode") == "casts") {
        to_all<int8_t>();
        to_all<uint8_t>();
        to_all<int16_t>();
        to_all<uint16_t>();
        to_all<int32_t>();
        to_all<uint32_t>();
        to_all<int64_t>();
        to_all<uint64_t>();
        to_all<float>();
        to_all<double>();
        to_all<long double>();
        to_all<Boxed<int32_t>>();
        to_all<Boxed<float>>();
        shorthands();
    } else {
        auto const i8 = Values<int8_t>::all();
        auto const u8 = Values<uint8_t>::all();
        std::vector<int> const      i32 = {INT32_MIN, INT32_MIN + 1, -65536, -32769, -32768, -129, -128, -127, -1, 0, 1, 2, 126, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777216, 16777217, INT32_MAX - 1, INT32_MAX};
        std::vector<uint64_t> const u64 = {0, 1, 2, 127, 128, 255, 256, 65535, 2147483647, 2147483648ull, 4294967295ull, 4294967296ull, 1ull << 63, ~0ull};
        std::vector<float> const    fl  = {-1e30f, -300, -2.5f, -1, -0.5f, 0, 0.5f, 1, 2.5f, 127, 127.5f, 255, 300, 1e9f, 1e30f};
        std::vector<double> const   db  = {-1e300, -300, -2.5, -1, 0, 0.1, 0.5, 1, 2.5, 300, 1e30, 1e300};
        minmax2<int8_t, int8_t>(i8, i8);
        minmax2<int8_t, uint8_t>(i8, u8);
        minmax2<uint8_t, int8_t>(u8, i8);
        minmax2<int, int>(i32, i32);
        minmax2<int, int8_t>(i32, i8);
        minmax2<int8_t, int>(i8, i32);
        minmax2<int, uint64_t>(i32, u64);
        minmax2<uint64_t, int>(u64, i32);
        minmax2<uint64_t, uint64_t>(u64, u64);
        minmax2<float, float>(fl, fl);
        minmax2<float, double>(fl, db);
        minmax2<double, float>(db, fl);
        minmax2<float, int>(fl, i32);
        minmax2<int, float>(i32, fl);
        minmax2<double, int>(db, i32);
        std::vector<int8_t> const  s8 = {-128, -127, -1, 0, 1, 2, 126, 127};
        std::vector<uint8_t> const t8 = {0, 1, 2, 127, 128, 254, 255};
        minmax3<int, int, int>(i32, i32, i32);
        minmax3<int8_t, int8_t, int8_t>(s8, i8, s8);
        minmax3<int8_t, int, int8_t>(s8, i32, s8);
        minmax3<int8_t, int8_t, int>(s8, s8, i32);
        minmax3<uint8_t, int8_t, int>(t8, i8, i32);
        minmax3<int, uint64_t, int8_t>(i32, u64, s8);
        minmax3<uint64_t, int, uint64_t>(u64, i32, u64);
        minmax3<float, double, float>(fl, db, fl);
        minmax3<float, float, int>(fl, fl, i32);
        minmax3<double, float, int>(db, fl, i32);
        clamps();
        arrays();
    }
    return finish();
}
