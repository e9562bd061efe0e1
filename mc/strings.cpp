// C22: trimming, splitting, comparing text and converting it to numbers, against references written
// from the definition, on every string over small alphabets up to a length and on every boundary value.
#include <cmath>
#include <limits>
#include <stdexcept>

#include "cftio.hpp"
#include "filegen.hpp"
#include "utils/parse_utils.hpp"

using namespace mc;
using cft::StringView;
typedef __int128 wide;

static bool ws(char c) {
    return c == ' ' || (c >= '\t' && c <= '\r');
}

static std::string str_of(StringView v) {
    return std::string(v.begin(), v.end());
}

static void all_strings(std::string const& A, int len, char const* what, std::function<void(std::string const&)> const& f) {
    for (int n = 0; n <= len; ++n) {
        int const        pre = std::min(n, 2);
        std::vector<int> p(static_cast<size_t>(pre), 0);
        do {
            std::string head;
            for (int x : p)
                head += A[static_cast<size_t>(x)];
            if (!take([=] { return strf("%s: all strings of %d bytes starting with '", what, n) + show(head) + "'"; }))
                continue;
            std::vector<int> d(static_cast<size_t>(n - pre), 0);
            std::string      s;
            do {
                s = head;
                for (int x : d)
                    s += A[static_cast<size_t>(x)];
                transition();
                f(s);
            } while (odo(d, static_cast<int>(A.size())));
        } while (odo(p, static_cast<int>(A.size())));
    }
}

// The text lives in an exactly sized heap block, so that the sanitizer sees any read beyond it.
struct Exact {
    std::vector<char> b;
    explicit Exact(std::string const& s, bool nul)
        : b(s.begin(), s.end()) {
        n = b.size();
        if (nul)
            b.push_back(0);
        b.shrink_to_fit();
    }
    StringView view() const {
        return StringView(b.data(), n);
    }
    size_t n;
};

static void check_text(std::string const& s) {
    Exact       x(s, false);
    StringView  v = x.view();
    size_t      b = 0, e = s.size();
    while (b < e && ws(s[b]))
        ++b;
    std::string const lt = s.substr(b);
    MC_CHECK(str_of(cft::ltrim(v)) == lt, "ltrim('%s') = '%s'", show(s).c_str(), show(str_of(cft::ltrim(v))).c_str());
    while (e > b && ws(s[e - 1]))
        --e;
    std::string const t = s.substr(b, e - b);
    MC_CHECK(str_of(cft::trim(v)) == t, "trim('%s') = '%s'", show(s).c_str(), show(str_of(cft::trim(v))).c_str());
    // rtrim of a non-blank text; of a blank text the library keeps it (trimming both sides empties it)
    if (!t.empty())
        MC_CHECK(str_of(cft::rtrim(v)) == s.substr(0, e), "rtrim('%s') = '%s'", show(s).c_str(), show(str_of(cft::rtrim(v))).c_str());
    std::vector<std::string> ref;
    std::string              cur;
    for (char c : s)
        if (ws(c)) {
            if (!cur.empty())
                ref.push_back(cur);
            cur.clear();
        } else
            cur += c;
    if (!cur.empty())
        ref.push_back(cur);
    auto sp = cft::split(v);
    bool ok = sp.size() == ref.size();
    for (size_t k = 0; ok && k < ref.size(); ++k)
        ok = str_of(sp[k]) == ref[k] && sp[k].begin() >= v.begin() && sp[k].end() <= v.end();
    MC_CHECK(ok, "split('%s') gives %zu parts, expected %zu", show(s).c_str(), sp.size(), ref.size());
    // positions
    size_t const n = s.size();
    size_t       first = n, last = n;
    for (size_t k = n; k-- > 0;)
        if (ws(s[k]))
            first = k;
    for (size_t k = 0; k < n; ++k)
        if (ws(s[k]))
            last = k;
    MC_CHECK(v.find_first_true(cft::IsSpace{}) == first, "first space of '%s'", show(s).c_str());
    MC_CHECK(v.find_last_true(cft::IsSpace{}) == last, "last space of '%s'", show(s).c_str());
    MC_CHECK(v.size() == n && v.empty() == (n == 0) && v.to_cpp_string() == s, "size/empty/to_cpp_string of '%s'", show(s).c_str());
    for (size_t i = 0; i <= n; ++i) {
        MC_CHECK(str_of(v.remove_prefix(i)) == s.substr(i) && str_of(v.remove_suffix(i)) == s.substr(0, i), "prefix/suffix %zu of '%s'", i, show(s).c_str());
        for (size_t j = i; j <= n; ++j)
            MC_CHECK(str_of(v.get_substr(i, j)) == s.substr(i, j - i), "substr %zu..%zu of '%s'", i, j, show(s).c_str());
    }
    state(mix(hash_bytes(t.data(), t.size()), ref.size()));
    validated();
}

static int sgn(int x) {
    return (x > 0) - (x < 0);
}

static void check_pair(std::string const& a, std::string const& b) {
    Exact      x(a, false), y(b, false);
    StringView u = x.view(), v = y.view();
    int const  c = sgn(a.compare(b));
    MC_CHECK(sgn(u.compare(v)) == c, "compare('%s','%s') = %d, strings compare %d", show(a).c_str(), show(b).c_str(), u.compare(v), c);
    MC_CHECK((u == v) == (c == 0) && (u != v) == (c != 0) && (u < v) == (c < 0) && (u <= v) == (c <= 0) && (u > v) == (c > 0) && (u >= v) == (c >= 0),
             "operators on '%s','%s'", show(a).c_str(), show(b).c_str());
    transition();
    state(mix(hash_bytes(a.data(), a.size()), static_cast<uint64_t>(c + 1)));
    validated();
}

// Reference integer conversion: false if there is no number; value saturated far outside every type.
static bool ref_int(std::string const& s, wide& val, size_t& used) {
    size_t p = 0;
    while (p < s.size() && ws(s[p]))
        ++p;
    bool neg = false;
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        neg = s[p++] == '-';
    if (p >= s.size() || s[p] < '0' || s[p] > '9')
        return false;
    wide v = 0;
    wide const cap = static_cast<wide>(1) << 100;
    for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p)
        if (v < cap)
            v = v * 10 + (s[p] - '0');
    val  = neg ? -v : v;
    used = p;
    return true;
}

template <typename T>
static void check_int(std::string const& s, char const* tn) {
    Exact      x(s, true);
    StringView v = x.view(), orig = v;
    wide       rv   = 0;
    size_t     used = 0;
    bool const num  = ref_int(s, rv, used);
    bool const fits = num && rv >= static_cast<wide>(std::numeric_limits<T>::lowest()) && rv <= static_cast<wide>(std::numeric_limits<T>::max());
    bool       threw = false, threw2 = false;
    T          r = T(), r2 = T();
    try {
        r = cft::string_to<T>::consume(v);
    } catch (std::exception const&) {
        threw = true;
    }
    try {
        r2 = cft::string_to<T>::parse(orig);
    } catch (std::exception const&) {
        threw2 = true;
    }
    MC_CHECK(threw == !fits, "%s from '%s': %s", tn, show(s).c_str(), threw ? "error although the number fits" : num ? "number does not fit, yet no error" : "no number, yet no error");
    MC_CHECK(threw == threw2 && (threw || r == r2), "%s from '%s': parse and consume disagree", tn, show(s).c_str());
    if (fits && !threw) {
        MC_CHECK(static_cast<wide>(r) == rv, "%s from '%s' = %lld", tn, show(s).c_str(), static_cast<long long>(r));
        MC_CHECK(str_of(v) == s.substr(used), "%s from '%s' leaves '%s'", tn, show(s).c_str(), show(str_of(v)).c_str());
    }
    state(mix(mix(fits, static_cast<uint64_t>(rv)), sizeof(T)));
    validated();
}

static void check_ints(std::string const& s) {
    check_int<int8_t>(s, "int8");
    check_int<uint8_t>(s, "uint8");
    check_int<int16_t>(s, "int16");
    check_int<uint16_t>(s, "uint16");
    check_int<int32_t>(s, "int32");
    check_int<uint32_t>(s, "uint32");
    check_int<int64_t>(s, "int64");
    check_int<uint64_t>(s, "uint64");
    check_int<long long>(s, "long long");
    check_int<unsigned long long>(s, "unsigned long long");
}

// Reference real conversion: mantissa digits and decimal exponent.
static bool ref_real(std::string const& s, bool& neg, std::string& digits, long& exp10, size_t& used) {
    size_t p = 0;
    while (p < s.size() && ws(s[p]))
        ++p;
    neg = false;
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        neg = s[p++] == '-';
    digits.clear();
    exp10    = 0;
    bool any = false, dot = false;
    for (; p < s.size(); ++p) {
        if (s[p] == '.' && !dot) {
            // a dot belongs to the number if a digit precedes or follows
            if (!any && !(p + 1 < s.size() && s[p + 1] >= '0' && s[p + 1] <= '9'))
                break;
            dot = true;
        } else if (s[p] >= '0' && s[p] <= '9') {
            any = true;
            digits += s[p];
            exp10 -= dot;
        } else
            break;
    }
    if (!any)
        return false;
    used = p;
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
        size_t q  = p + 1;
        bool   en = false;
        if (q < s.size() && (s[q] == '+' || s[q] == '-'))
            en = s[q++] == '-';
        if (q < s.size() && s[q] >= '0' && s[q] <= '9') {
            long e = 0;
            for (; q < s.size() && s[q] >= '0' && s[q] <= '9'; ++q)
                if (e < 1000000)
                    e = e * 10 + (s[q] - '0');
            exp10 += en ? -e : e;
            used = q;
        }
    }
    return true;
}

template <typename T>
static void check_real(std::string const& s, char const* tn) {
    Exact       x(s, true);
    StringView  v = x.view();
    bool        neg;
    std::string dg;
    long        e10;
    size_t      used = 0;
    bool const  num  = ref_real(s, neg, dg, e10, used);
    bool        threw = false;
    T           r     = T();
    try {
        r = cft::string_to<T>::consume(v);
    } catch (std::exception const&) {
        threw = true;
    }
    if (!num) {
        MC_CHECK(threw, "%s from '%s': no number, yet no error", tn, show(s).c_str());
        state(1);
        return;
    }
    size_t nz = 0;
    while (nz < dg.size() && dg[nz] == '0')
        ++nz;
    bool const zero = nz == dg.size();
    long const mag  = zero ? 0 : e10 + static_cast<long>(dg.size() - nz) - 1;  // decimal exponent of the leading digit
    long const top  = std::numeric_limits<T>::max_exponent10;
    long const bot  = std::numeric_limits<T>::min_exponent10 - std::numeric_limits<T>::max_digits10;
    if (!zero && mag > top) {
        MC_CHECK(threw, "%s from '%s' does not fit, yet no error", tn, show(s).c_str());
        state(2);
        return;
    }
    if (!zero && mag == top) {  // next to the largest value: compare the leading digits
        long double lead = 0;
        for (size_t k = nz; k < dg.size(); ++k)
            lead += (dg[k] - '0') * std::pow(10.0L, -static_cast<long double>(k - nz));
        long double lim = static_cast<long double>(std::numeric_limits<T>::max());
        long double ml  = 0;
        // leading digits of the largest value, from its printed form
        char b[64];
        snprintf(b, sizeof b, "%.20Le", lim);
        ml = strtold(std::string(b, strchr(b, 'e')).c_str(), nullptr);
        if (lead > ml * (1 + 1e-6L)) {
            MC_CHECK(threw, "%s from '%s' does not fit, yet no error", tn, show(s).c_str());
            state(3);
            return;
        }
        if (lead > ml * (1 - 1e-6L))
            return;  // too close to the limit to be judged here
    }
    MC_CHECK(!threw, "%s from '%s': error although the number fits", tn, show(s).c_str());
    if (threw)
        return;
    MC_CHECK(str_of(v) == s.substr(used), "%s from '%s' leaves '%s'", tn, show(s).c_str(), show(str_of(v)).c_str());
    long double ref = 0;
    for (char c : dg)
        ref = ref * 10 + (c - '0');
    if (e10 >= 0)
        ref *= std::pow(10.0L, static_cast<long double>(std::min(e10, 5000L)));
    else  // in two steps: the power itself may be below the smallest number
        ref = ref / std::pow(10.0L, static_cast<long double>(std::min(-e10, 4000L))) / std::pow(10.0L, static_cast<long double>(std::min(std::max(-e10 - 4000, 0L), 4000L)));
    if (zero)
        ref = 0;
    if (neg)
        ref = -ref;
    long double const eps = 4 * static_cast<long double>(std::numeric_limits<T>::epsilon());
    if (zero || mag > bot + 3 * std::numeric_limits<T>::max_digits10)
        MC_CHECK(std::fabs(static_cast<long double>(r) - ref) <= eps * std::fabs(ref), "%s from '%s' = %.20Lg, expected %.20Lg", tn, show(s).c_str(), static_cast<long double>(r), ref);
    else  // tiny: at least not larger than the smallest normal number
        MC_CHECK(std::fabs(static_cast<long double>(r)) <= std::max(std::fabs(ref) * 2, static_cast<long double>(std::numeric_limits<T>::min())), "%s from '%s' = %Lg", tn, show(s).c_str(), static_cast<long double>(r));
    state(mix(hash_bytes(dg.data(), dg.size()), static_cast<uint64_t>(e10 + 100000) * 4 + sizeof(T) + neg));
    validated();
}

static void check_reals(std::string const& s) {
    check_real<float>(s, "float");
    check_real<double>(s, "double");
    check_real<long double>(s, "long double");
}

// A token inside a larger text: the conversion must stop at the token's end.
static void check_token(std::string const& tok) {
    if (tok.empty())
        return;
    for (auto& c : tok)
        if (ws(c))
            return;
    for (char const* after : {" 7", "\t-3", "\n5 5"}) {
        std::string  t = " 4 " + tok + after;
        auto         sp = cft::split(StringView(t));
        wide         rv   = 0;
        size_t       used = 0;
        bool         threw = false;
        int32_t      r = 0;
        bool const   num = ref_int(tok, rv, used);
        bool const   fits = num && rv >= INT32_MIN && rv <= INT32_MAX;
        if (sp.size() < 3 || str_of(sp[1]) != tok)
            continue;
        StringView v = sp[1];
        try {
            r = cft::string_to<int32_t>::consume(v);
        } catch (std::exception const&) {
            threw = true;
        }
        MC_CHECK(threw == !fits && (threw || (r == rv && str_of(v) == tok.substr(used))), "token '%s' of '%s': %s%d", show(tok).c_str(), show(t).c_str(), threw ? "error " : "", r);
        validated();
    }
}

static std::string dec(wide v) {
    bool neg = v < 0;
    if (neg)
        v = -v;
    std::string s;
    do {
        s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
        v /= 10;
    } while (v);
    return (neg ? "-" : "") + s;
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const th = thorough();
    std::string const mode = arg("--mode");
    bool const mem = mode == "mem";
    int const  cut = mem ? 1 : 0;

    all_strings(std::string(" \t\n\v\f\r\0a\xa0-", 10), (th ? 7 : 6) - cut, "text", check_text);
    all_strings("01 9-+.ae", (th ? 7 : 6) - cut, "integers", [](std::string const& s) {
        check_ints(s);
        check_token(s);
    });
    all_strings("019.e-+ aE", (th ? 7 : 6) - cut, "reals", check_reals);

    std::string const         A = std::string("\0 ab\x7f\x80\xff", 7);
    std::vector<std::string> pool;
    for (int n = 0; n <= 3; ++n) {
        std::vector<int> d(static_cast<size_t>(n), 0);
        do {
            std::string s;
            for (int x : d)
                s += A[static_cast<size_t>(x)];
            pool.push_back(s);
        } while (odo(d, static_cast<int>(A.size())));
    }
    for (auto const& a : pool) {
        if (!take([=] { return "comparing '" + show(a) + "' with every other text"; }))
            continue;
        for (auto const& b : pool)
            check_pair(a, b);
    }

    // every boundary value of every integer type, in every context
    std::vector<wide> vals;
    for (int b : {7, 8, 15, 16, 31, 32, 63, 64, 65, 90})
        for (int d = -2; d <= 2; ++d)
            for (int sg : {1, -1})
                vals.push_back(sg * (static_cast<wide>(1) << b) + d);
    for (int b = 1; b <= 22; ++b) {
        wide p = 1;
        for (int k = 0; k < b; ++k)
            p *= 10;
        vals.push_back(p);
        vals.push_back(-p);
        vals.push_back(p - 1);
    }
    for (auto v : vals) {
        std::string const d = dec(v);
        if (!take([=] { return "boundary value " + d; }))
            continue;
        for (char const* pre : {"", " ", "\t\n ", "0", "000000000000000000000000"})
            for (char const* suf : {"", " ", "x", ".5", "e5", " 3", "-", "\n", "+1"}) {
                std::string t = d;
                if (pre[0] == '0' && t[0] == '-')
                    t = "-" + std::string(pre) + t.substr(1);
                else
                    t = std::string(pre) + t;
                check_ints(t + suf);
                check_reals(t + suf);
                check_token(t + suf);
                if (v >= 0)
                    check_ints("+" + t + suf);
                transition();
            }
    }
    // reals of every magnitude
    for (int e = -5100; e <= 5100; e += (th || std::abs(e) < 400 || std::abs(e) > 4880) ? 1 : 37) {
        if (!take([=] { return strf("reals with exponent %d", e); }))
            continue;
        for (char const* m : {"1", "9.99", "-3.4", "3.5", "1.7", "-1.8", "1.18", "1.2", "0.001", "123456789.5", ".5", "5.", "0", "0.0"})
            for (char const* suf : {"", " 1", "x", "e", "."}) {
                check_reals(strf("%se%d%s", m, e, suf));
                transition();
            }
    }
    return finish();
}
