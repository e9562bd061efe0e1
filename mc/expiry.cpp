// C05: the time limit expires at every possible clock observation of every run.
#include "common/cftio.hpp"
#include "common/vclock.hpp"

#include "algorithms/Refinement.hpp"

using namespace mc;

// stdout of the solver goes here: counts what is printed after the limit has expired
static uint64_t lines_after, lines_total;

static ssize_t sink(void*, char const* b, size_t n) {
    uint64_t l = 0;
    for (size_t i = 0; i < n; ++i)
        l += b[i] == '\n';
    lines_total += l;
    if (vclock().expired())
        lines_after += l;
    return static_cast<ssize_t>(n);
}

// After expiry the current code observes the clock at most 14 times and prints at most 30 lines
// (both measured below); one further round of any loop exceeds these allowances.
static uint64_t const max_reads_after = 40;
static uint64_t const max_lines_after = 45;

struct Cfg {
    float    eps;
    uint64_t heur;
    int      algo;
    uint64_t verbose;
};

static uint64_t run_one(Inst const& in, cft::Instance const& inst, Cfg const& c, int64_t expire, double opt) {
    vclock().reset();
    cft::Environment env;
    env.verbose    = c.verbose;
    env.epsilon    = c.eps;
    env.heur_iters = c.heur;
    uint64_t const q0 = vclock().queries;
    if (expire >= 0) {
        env.time_limit     = 100.0;
        vclock().expire_at = q0 + static_cast<uint64_t>(expire);
    }
    lines_after = lines_total = 0;
    cft::CftResult r;
    if (c.algo == 0)
        r = cft::run(env, inst);
    else {
        cft::ThreePhase tp;
        cft::Instance   copy = inst;
        r                    = tp(env, copy);
    }
    fflush(stdout);
    uint64_t const q = vclock().queries - q0;
    transition(q + 1);
    validated();
    auto const where = strf(" (limit expires at clock observation %lld of the run)", (long long)expire);
    auto const ce    = cover_error(in, r.sol.idxs);
    MC_CHECK(ce.empty(), "%s%s", ce.c_str(), where.c_str());
    auto const xe = cost_error(in, r.sol.idxs, static_cast<double>(r.sol.cost));
    MC_CHECK(xe.empty(), "%s%s", xe.c_str(), where.c_str());
    MC_CHECK(static_cast<double>(r.dual.lb) <= opt + tol(opt), "lower bound %.9g above the optimum %.9g%s", (double)r.dual.lb, opt, where.c_str());
    MC_CHECK(r.dual.mults.size() == static_cast<size_t>(in.nrows), "%zu multipliers for %d rows%s", r.dual.mults.size(), in.nrows, where.c_str());
    for (auto u : r.dual.mults)
        MC_CHECK(std::isfinite((double)u) && u >= 0, "multiplier %.9g%s", (double)u, where.c_str());
    if (expire >= 0) {
        uint64_t const after = q > static_cast<uint64_t>(expire) ? q - static_cast<uint64_t>(expire) : 0;
        MC_CHECK(after <= max_reads_after, "%llu further clock observations after expiry%s", (unsigned long long)after, where.c_str());
        MC_CHECK(lines_after <= max_lines_after, "%llu lines of progress after expiry%s", (unsigned long long)lines_after, where.c_str());
        count_max("max_reads_after_expiry", after);
        count_max("max_lines_after_expiry", lines_after);
    }
    uint64_t h = mix(in.hash(), static_cast<uint64_t>(expire + 1));
    for (auto j : r.sol.idxs)
        h = mix(h, static_cast<uint64_t>(j) + 1);
    h = mix(h, hash_bytes(&r.dual.lb, sizeof(r.dual.lb)));
    state(h);
    return q;
}

static void explore(Inst const& in0, std::vector<Cfg> const& cs, uint64_t max_points) {
    Inst const in = rounded(in0);
    for (auto const& c : cs) {
        if (!take([&] {
                return in.str() + strf(" | eps=%g heur=%llu %s, every expiry point", c.eps, (unsigned long long)c.heur, c.algo ? "three-phase" : "run");
            }))
            continue;
        auto const     inst = to_cft(in);
        double const   opt  = in.opt();
        uint64_t const q    = run_one(in, inst, c, -1, opt);
        count_max("max_expiry_points", q);
        if (q > max_points)
            count("runs_with_capped_points");
        for (uint64_t k = 0; k < q && k < max_points; ++k)
            run_one(in, inst, c, static_cast<int64_t>(k), opt);
    }
}

// The limit is in seconds: with a steady clock the run must go on until the limit and stop after it.
static void units(Inst const& in0, double limit, uint64_t step_ns) {
    Inst const in = rounded(in0);
    if (!take([&] { return in.str() + strf(" | limit %g s, %g ms per clock observation", limit, static_cast<double>(step_ns) * 1e-6); }))
        return;
    auto const inst = to_cft(in);
    auto       go   = [&](double lim, uint64_t step) {
        vclock().reset();
        vclock().step_ns = step;
        cft::Environment env;
        env.verbose       = 0;
        env.epsilon       = 0.01f;
        env.time_limit    = lim;
        uint64_t const q0 = vclock().queries;
        cft::run(env, inst);
        vclock().step_ns = 0;
        return vclock().queries - q0;
    };
    uint64_t const full    = go(1e12, step_ns);
    uint64_t const limited = go(limit, step_ns);
    double const   steps   = limit / (static_cast<double>(step_ns) * 1e-9);
    transition(full + limited);
    validated(2);
    if (static_cast<double>(full) <= steps)
        MC_CHECK(limited == full, "run ended after %llu of %llu observations although the limit of %g s was not reached", (unsigned long long)limited, (unsigned long long)full, limit);
    else {
        MC_CHECK(static_cast<double>(limited) <= steps + 45, "run went on for %g s with a limit of %g s", static_cast<double>(limited * step_ns) * 1e-9, limit);
        MC_CHECK(static_cast<double>(limited) >= steps - 2 || limited == full, "run stopped after %g s with a limit of %g s", static_cast<double>(limited * step_ns) * 1e-9, limit);
        count("stopped_by_limit");
    }
    state(mix(mix(in.hash(), limited), full));
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const            deep = thorough();
    cookie_io_functions_t io   = {};
    io.write                   = sink;
    stdout                     = fopencookie(nullptr, "w", io);
    setvbuf(stdout, nullptr, _IONBF, 0);

    std::string const mode = arg("--mode");
    if (mode == "points") {
        std::vector<Cfg> const    cs   = {{0.01f, 2, 0, 4}, {0.999f, 3, 0, 4}, {0.01f, 2, 1, 4}};
        std::vector<Cfg> const    full = {{0.01f, 250, 0, 3}};
        std::vector<double> const a3 = {0, 1, 2.5}, a2 = {1, 3};
        auto                      f = [&](Inst const& in) { explore(in, cs, 100000); };
        all_small(1, 3, a3, true, f);
        all_small(2, 2, a3, true, f);
        all_small(3, 3, a3, false, f);
        all_small(3, 4, a2, false, f);
        circulants(5, deep ? 8 : 6, {0, 3}, {1, 10}, f);
        graphs(4, {0, 5}, {1, 10}, f);
        complete_designs(5, 6, {2}, {1, 10}, f);
        auto g = [&](Inst const& in) { explore(in, full, deep ? 20000 : 1000); };
        circulants(5, 5, {0, 3, 5}, {1}, g);
        graphs(4, {5}, {10}, [&](Inst const& in) {
            if (deep || in.nrows >= 6)
                g(in);
        });
        if (deep) {
            graphs(5, {0, 5}, {10}, f);
            all_small(4, 4, a2, false, f);
        }
        auto big = [&](Inst const& in) { explore(in, {{0.01f, 1, 0, 4}}, deep ? 400 : 40); };
        replicated({31, 60}, {1}, big);
    } else {
        auto f = [&](Inst const& in) {
            for (double lim : {0.0, 0.02, 0.5, 1.0, 2.5, 10.0})
                for (uint64_t st : {uint64_t(1000000), uint64_t(37000000)})
                    units(in, lim, st);
        };
        circulants(5, deep ? 7 : 6, {0, 2, 3, 5}, {1, 10}, f);
        graphs(4, {0, 5}, {10}, f);
    }
    return finish();
}
