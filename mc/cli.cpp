// C23: every argument list up to a length, against a reference reading of the option table.
#include <cmath>
#include <stdexcept>

#include "cftio.hpp"
#include "core/CliArgs.hpp"
#include "filegen.hpp"

using namespace mc;

enum Kind { INST, PARSER, OUT, INIT, SEED, TLIM, VERB, EPS, ITERS, BETA, ABSX, RELX, UNIT, HELP };
struct Opt {
    char const* s;
    char const* l;
    Kind        k;
};
static Opt const opts[] = {{"-i", "--inst", INST}, {"-p", "--parser", PARSER}, {"-o", "--out-sol", OUT}, {"-w", "--init-sol", INIT},
                           {"-s", "--seed", SEED}, {"-t", "--timelimit", TLIM}, {"-v", "--verbose", VERB}, {"-e", "--epsilon", EPS},
                           {"-g", "--heur-iters", ITERS}, {"-b", "--beta", BETA}, {"-a", "--abs-subg-exit", ABSX}, {"-r", "--rel-subg-exit", RELX},
                           {"-u", "--unit-costs", UNIT}, {"-h", "--help", HELP}};

static Opt const* find(std::string const& s) {
    for (auto const& o : opts)
        if (s == o.s || s == o.l)
            return &o;
    return nullptr;
}

static bool ref_u64(std::string const& s, uint64_t& v) {
    size_t p = 0;
    while (p < s.size() && isspace(static_cast<unsigned char>(s[p])))
        ++p;
    bool neg = false;
    if (p < s.size() && (s[p] == '+' || s[p] == '-'))
        neg = s[p++] == '-';
    if (p >= s.size() || !isdigit(static_cast<unsigned char>(s[p])))
        return false;
    unsigned __int128 x = 0;
    for (; p < s.size() && isdigit(static_cast<unsigned char>(s[p])); ++p) {
        x = x * 10 + static_cast<unsigned>(s[p] - '0');
        if (x > UINT64_MAX)
            return false;
    }
    if (neg && x != 0)
        return false;
    v = static_cast<uint64_t>(x);
    return true;
}

static bool ref_ld(std::string const& s, long double mx, long double& v) {
    char* e = nullptr;
    v       = strtold(s.c_str(), &e);
    return e != s.c_str() && std::isfinite(v) && std::fabs(v) <= mx;
}

struct Ref {
    bool             error = false;
    bool             seeded = false;
    bool             judge_name = true;
    cft::Environment e;
};

static Ref reference(std::vector<std::string> const& a) {
    Ref r;
    for (size_t k = 0; k < a.size(); ++k) {
        Opt const* o = find(a[k]);
        if (!o || o->k == HELP)
            continue;
        if (o->k == UNIT) {
            r.e.use_unit_costs = true;
            continue;
        }
        if (k + 1 >= a.size())
            continue;
        std::string const& v = a[++k];
        long double        x = 0;
        uint64_t           u = 0;
        long double const  fm = std::numeric_limits<cft::real_t>::max(), dm = std::numeric_limits<double>::max();
        bool               ok = true;
        switch (o->k) {
        case INST: r.e.inst_path = v; break;
        case PARSER: r.e.parser = v; break;
        case OUT: r.e.sol_path = v; break;
        case INIT: r.e.initsol_path = v; break;
        case SEED: if ((ok = ref_u64(v, u))) { r.e.seed = u; r.seeded = true; } break;
        case VERB: if ((ok = ref_u64(v, u))) r.e.verbose = u; break;
        case ITERS: if ((ok = ref_u64(v, u))) r.e.heur_iters = u; break;
        case TLIM: if ((ok = ref_ld(v, dm, x))) r.e.time_limit = static_cast<double>(x); break;
        case EPS: if ((ok = ref_ld(v, fm, x))) r.e.epsilon = static_cast<cft::real_t>(x); break;
        case BETA: if ((ok = ref_ld(v, fm, x))) r.e.beta = static_cast<cft::real_t>(x); break;
        case ABSX: if ((ok = ref_ld(v, fm, x))) r.e.abs_subgrad_exit = static_cast<cft::real_t>(x); break;
        case RELX: if ((ok = ref_ld(v, fm, x))) r.e.rel_subgrad_exit = static_cast<cft::real_t>(x); break;
        default: break;
        }
        if (!ok) {
            r.error = true;
            return r;
        }
    }
    if (r.e.inst_path.empty())
        r.error = true;
    else if (r.e.sol_path.empty()) {
        std::string b = r.e.inst_path;
        size_t      p = b.find_last_of("/\\");
        if (p != std::string::npos)
            b = b.substr(p + 1);
        p = b.rfind('.');
        if (p != std::string::npos)
            b = b.substr(0, p);
        r.judge_name = !b.empty();
        r.e.sol_path = b + ".sol";
    }
    return r;
}

static std::string listing(std::vector<std::string> const& a) {
    std::string s;
    for (auto const& x : a)
        s += "'" + show(x) + "' ";
    return s;
}

static void check(std::vector<std::string> const& a) {
    std::vector<char const*> v = {"accft"};
    for (auto const& x : a)
        v.push_back(x.c_str());
    transition();
    Ref              r = reference(a);
    cft::Environment e;
    bool             threw = false;
    try {
        e = cft::parse_cli_args(static_cast<int>(v.size()), v.data());
    } catch (std::exception const&) {
        threw = true;
    }
    validated();
    if (threw || r.error) {
        MC_CHECK(threw == r.error, "arguments %s: %s", listing(a).c_str(), threw ? "rejected although valid" : "accepted although invalid");
        state(1);
        return;
    }
    auto const& q = r.e;
#define SAME(f) MC_CHECK(e.f == q.f, "arguments %s: wrong value of " #f, listing(a).c_str())
    SAME(inst_path);
    if (r.judge_name)
        MC_CHECK(e.sol_path == q.sol_path, "arguments %s: solution path '%s', expected '%s'", listing(a).c_str(), show(e.sol_path).c_str(), show(q.sol_path).c_str());
    SAME(initsol_path);
    SAME(parser);
    SAME(seed);
    SAME(time_limit);
    SAME(verbose);
    SAME(epsilon);
    SAME(heur_iters);
    SAME(alpha);
    SAME(beta);
    SAME(abs_subgrad_exit);
    SAME(rel_subgrad_exit);
    SAME(use_unit_costs);
    SAME(min_fixing);
    auto ref_rnd = cft::prng_t(r.seeded ? q.seed : 0);
    for (int k = 0; k < 3; ++k)
        MC_CHECK(e.rnd() == ref_rnd(), "arguments %s: the generator is not seeded with %llu", listing(a).c_str(), (unsigned long long)q.seed);
    uint64_t h = hash_bytes(e.inst_path.data(), e.inst_path.size());
    for (auto* s : {&e.sol_path, &e.initsol_path, &e.parser})
        h = hash_bytes(s->data(), s->size(), h);
    h = mix(mix(mix(h, e.seed), e.verbose), e.heur_iters);
    for (double x : {e.time_limit, (double)e.epsilon, (double)e.beta, (double)e.abs_subgrad_exit, (double)e.rel_subgrad_exit, (double)e.use_unit_costs})
        h = hash_bytes(&x, sizeof x, h);
    state(h);
}

static void sequences(std::vector<std::string> const& A, int len, char const* what, std::vector<std::string> const& head = {}) {
    for (int n = 0; n <= len; ++n) {
        int const        pre = std::min(n, 2);
        std::vector<int> p(static_cast<size_t>(pre), 0);
        do {
            std::vector<std::string> h = head;
            for (int x : p)
                h.push_back(A[static_cast<size_t>(x)]);
            if (!take([=] { return strf("%s: all %d-argument lists starting with ", what, n) + listing(h); }))
                continue;
            std::vector<int> d(static_cast<size_t>(n - pre), 0);
            do {
                auto a = h;
                for (int x : d)
                    a.push_back(A[static_cast<size_t>(x)]);
                check(a);
            } while (odo(d, static_cast<int>(A.size())));
        } while (odo(p, static_cast<int>(A.size())));
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    if (!freopen("/dev/null", "w", stdout))
        return 2;
    bool const               th = thorough();
    std::vector<std::string> flags;
    for (auto const& o : opts) {
        flags.push_back(o.s);
        flags.push_back(o.l);
    }
    std::vector<std::string> full = flags;
    for (char const* x : {"x", "dir/a.rail", "7", "0.25", "-3", "", "abc", "-x", "--instx", "-ii", "18446744073709551615", "18446744073709551616", "1e39", "-1e-3", "nan"})
        full.push_back(x);
    sequences(full, 3, "all tokens");
    sequences(full, 2, "after an instance", {"-i", "p.q/r.scp"});
    std::vector<std::string> small = {"-i", "--inst", "a", "-o", "--seed", "5", "-u", "-e", "0.5", "-t", "-h", "?", "-w"};
    sequences(small, th ? 7 : 6, "long lists");
    // every option with every value, once and overridden by every other value
    std::vector<std::string> vals = {"0", "1", "7", "42", "-1", "-0", "+3", " 9", "1e3", "2.5", ".5", "5.", "1e-50", "1e38", "1e39", "1e308", "1e309", "-2.5", "12x", "x12", "", " ", "-", "4294967296",
                                     "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-18446744073709551615", "RAIL", "SCP", "a b", "-i", "--seed"};
    for (auto const& f : flags)
        for (auto const& v : vals) {
            if (!take([=] { return "option " + f + " with value '" + show(v) + "', then overridden"; }))
                continue;
            check({"-i", "x", f, v});
            check({f, v, "-i", "x"});
            check({f, v});
            check({f, v, "-i", "x", "-v", "2", "-u", "-b", "0.75"});
            for (auto const& w : vals)
                check({"-i", "x", f, v, f, w});
        }
    // every pair of options with valid values, in both orders
    std::vector<std::vector<std::string>> good;
    for (auto const& o : opts) {
        std::string v = o.k == INST || o.k == OUT || o.k == INIT ? std::string("f") + o.s : o.k == PARSER ? "MPS" : o.k == SEED || o.k == VERB || o.k == ITERS ? std::to_string(3 + static_cast<int>(o.k)) : strf("%d.125", static_cast<int>(o.k));
        for (auto n : {o.s, o.l})
            good.push_back(o.k == UNIT || o.k == HELP ? std::vector<std::string>{n} : std::vector<std::string>{n, v});
    }
    for (auto const& x : good)
        for (auto const& y : good) {
            if (!take([=] { return "options " + listing(x) + listing(y) + "and every third one"; }))
                continue;
            for (auto const& z : good) {
                std::vector<std::string> a = x;
                a.insert(a.end(), y.begin(), y.end());
                a.insert(a.end(), z.begin(), z.end());
                check(a);
                a.push_back("-i");
                a.push_back("last");
                check(a);
            }
        }
    // every instance path over a small alphabet: name of the solution file
    for (int n = 1; n <= (th ? 9 : 7); ++n) {
        if (!take([=] { return strf("all instance paths of %d characters", n); }))
            continue;
        std::string const A = "a./\\b";
        std::vector<int>  d(static_cast<size_t>(n), 0);
        do {
            std::string s;
            for (int x : d)
                s += A[static_cast<size_t>(x)];
            check({"-i", s});
        } while (odo(d, static_cast<int>(A.size())));
    }
    return finish();
}
