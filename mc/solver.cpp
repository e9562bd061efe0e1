// Whole-solver exploration: every instance of the families x solver parameters, run on the real code.
//   -DPROP=1 cover  2 cost  3 bound and multipliers  7 termination
#ifdef CHOOSER
#include "common/chooser_prng.hpp"
#endif
#include "common/cftio.hpp"
#include "common/vclock.hpp"

#include "algorithms/Refinement.hpp"

using namespace mc;

#ifndef PROP
#define PROP 0
#endif

struct Cfg {
    float    eps;
    uint64_t heur;
    float    alpha, beta, minfix;
    uint64_t seed;
    float    abs_exit, rel_exit;
    int      algo;  // 0 full run, 1 three-phase only
};

static std::string cfg_str(Cfg const& c) {
    return strf(" | %s eps=%g heur=%llu alpha=%g beta=%g minfix=%g seed=%llu abs=%g rel=%g",
                c.algo ? "three-phase" : "run",
                c.eps,
                (unsigned long long)c.heur,
                c.alpha,
                c.beta,
                c.minfix,
                (unsigned long long)c.seed,
                c.abs_exit,
                c.rel_exit);
}

static cft::Environment make_env(Cfg const& c) {
    cft::Environment e;
    e.verbose          = 0;
    e.epsilon          = c.eps;
    e.heur_iters       = c.heur;
    e.alpha            = c.alpha;
    e.beta             = c.beta;
    e.min_fixing       = c.minfix;
    e.seed             = c.seed;
    e.rnd              = cft::prng_t(c.seed);
    e.abs_subgrad_exit = c.abs_exit;
    e.rel_subgrad_exit = c.rel_exit;
    return e;
}

static void check_result(Inst const& in, cft::CftResult const& r, double opt) {
#if PROP == 1 || PROP == 0
    auto ce = cover_error(in, r.sol.idxs);
    MC_CHECK(ce.empty(), "returned selection is not a cover: %s", ce.c_str());
#endif
#if PROP == 2 || PROP == 0
    auto xe = cost_error(in, r.sol.idxs, static_cast<double>(r.sol.cost));
    MC_CHECK(xe.empty(), "%s", xe.c_str());
#endif
#if PROP == 3 || PROP == 0
    MC_CHECK(static_cast<double>(r.dual.lb) <= opt + tol(opt),
             "lower bound %.9g exceeds the optimum %.9g",
             static_cast<double>(r.dual.lb),
             opt);
    MC_CHECK(!std::isnan(static_cast<double>(r.dual.lb)), "lower bound is not a number");
    MC_CHECK(r.dual.mults.size() == static_cast<size_t>(in.nrows),
             "%zu multipliers for %d rows",
             r.dual.mults.size(),
             in.nrows);
    for (auto u : r.dual.mults)
        MC_CHECK(std::isfinite(static_cast<double>(u)) && u >= 0, "multiplier %.9g", static_cast<double>(u));
#endif
    uint64_t h = in.hash();
    for (auto j : r.sol.idxs)
        h = mix(h, static_cast<uint64_t>(j) + 1);
    for (auto u : r.dual.mults)
        h = mix(h, hash_bytes(&u, sizeof(float)));
    state(h);
    if (PROP == 3 && static_cast<double>(r.sol.cost) > opt + tol(opt))
        count("heuristic_result_above_optimum");
}

static void execute(Inst const& in0, Cfg const& c) {
    Inst const       in   = rounded(in0);
    cft::Instance    inst = to_cft(in);
    double const     opt  = PROP == 3 || PROP == 0 ? in.opt() : 0;
    vclock().reset();
    cft::Environment env = make_env(c);
    cft::CftResult   r;
#if PROP == 7
    // Budget of clock observations; when it is used up the clock jumps past the (otherwise
    // unreachable) limit, which ends the run.
    uint64_t const rows = static_cast<uint64_t>(in.nrows), cols = in.cols.size();
    double const   growth = std::log(1.0 / std::max(1e-3, (double)c.minfix)) / std::log((double)c.alpha) + 3;
    uint64_t const budget = (c.heur + 40 + 10 * rows) * (rows + 2) * static_cast<uint64_t>(growth) * (cols + 2);
    env.time_limit        = 1e6;
    vclock().expire_at    = budget;
#endif
    if (c.algo == 0)
        r = cft::run(env, inst);
    else {
        cft::ThreePhase tp;
        r = tp(env, inst);
    }
#if PROP == 7
    MC_CHECK(!vclock().expired(), "no termination within %llu clock observations", (unsigned long long)budget);
    count_max("max_clock_observations", vclock().queries);
    count_max("max_budget_permille", vclock().queries * 1000 / budget);
#endif
    transition(vclock().queries + 1);
    validated();
    check_result(in, r, opt);
}

static std::vector<Cfg> cfgs(std::string const& set) {
    Cfg const        d = {0.999f, 250, 1.1f, 1.0f, 0.3f, 0, 1.0f, 0.001f, 0};
    std::vector<Cfg> out;
    auto             with = [&](std::function<void(Cfg&)> f) {
        Cfg c = d;
        f(c);
        out.push_back(c);
    };
    if (set == "one") {
        with([](Cfg& c) { c.eps = 0.01f; });
    } else if (set == "two") {
        with([](Cfg&) {});
        with([](Cfg& c) { c.eps = 0.01f; c.heur = 20; });
    } else if (set == "few") {
        with([](Cfg&) {});
        with([](Cfg& c) { c.eps = 0.01f; c.heur = 30; });
        with([](Cfg& c) { c.eps = 0.0f; c.heur = 3; });
        with([](Cfg& c) { c.eps = 0.01f; c.heur = 0; });
        with([](Cfg& c) { c.eps = 0.01f; c.algo = 1; c.heur = 10; });
    } else if (set == "all") {
        for (float eps : {0.999f, 0.1f, 0.0f})
            for (uint64_t heur : {uint64_t(0), uint64_t(1), uint64_t(5), uint64_t(250)})
                for (float alpha : {1.1f, 3.0f})
                    for (float beta : {1.0f, 1.05f, 0.9f})
                        for (float mf : {0.3f, 0.01f, 1.0f})
                            for (uint64_t seed : {0, 1}) {
                                if (heur == 250 && (seed || beta != 1.0f))
                                    continue;
                                Cfg c  = d;
                                c.eps  = eps;
                                c.heur = heur;
                                c.alpha = alpha;
                                c.beta  = beta;
                                c.minfix = mf;
                                c.seed   = seed;
                                out.push_back(c);
                            }
        for (float a : {0.0f, 1.0f, 1e9f})
            for (float r : {0.0f, 0.001f, 1e9f})
                with([&](Cfg& c) { c.eps = 0.01f; c.abs_exit = a; c.rel_exit = r; });
        for (uint64_t heur : {uint64_t(0), uint64_t(7)})
            with([&](Cfg& c) { c.algo = 1; c.heur = heur; c.eps = 0.05f; });
    }
    return out;
}

static void explore(std::string const& cset, std::function<void(InstFn const&)> gen) {
    auto const cs = cfgs(cset);
    gen([&](Inst const& in) {
        for (auto const& c : cs)
            if (take([&] { return in.str() + cfg_str(c); }))
                execute(in, c);
    });
}

#ifdef CHOOSER
// All sequences of random outputs that deviate from a base pattern at most `devs` times.
static void explore_rng(std::function<void(InstFn const&)> gen, int devs) {
    Cfg const c = {0.01f, 4, 1.1f, 1.0f, 0.3f, 0, 1.0f, 0.001f, 0};
    gen([&](Inst const& in) {
        if (!take([&] { return in.str() + cfg_str(c) + " | all random sequences with bounded deviations"; }))
            return;
        for (int base = 0; base < 4; ++base) {
            rng_plan()      = RngPlan();
            rng_plan().base = base;
            execute(in, c);
            uint64_t const draws = rng_plan().draws;
            count_max("max_random_draws", draws);
            if (devs >= 1)
                for (uint64_t p = 0; p < draws && p < 400; ++p)
                    for (int v = 0; v < 3; ++v) {
                        if (base != 3 && v == base)
                            continue;
                        rng_plan()         = RngPlan();
                        rng_plan().base    = base;
                        rng_plan().dev_pos = static_cast<int64_t>(p);
                        rng_plan().dev_val = v;
                        execute(in, c);
                        uint64_t const draws2 = rng_plan().draws;
                        if (devs >= 2)
                            for (uint64_t p2 = p + 1; p2 < draws2 && p2 < 60; ++p2)
                                for (int v2 = 0; v2 < 3; ++v2) {
                                    rng_plan()          = RngPlan();
                                    rng_plan().base     = base;
                                    rng_plan().dev_pos  = static_cast<int64_t>(p);
                                    rng_plan().dev_val  = v;
                                    rng_plan().dev_pos2 = static_cast<int64_t>(p2);
                                    rng_plan().dev_val2 = v2;
                                    execute(in, c);
                                }
                    }
        }
    });
}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
    std::string const mode = arg("--mode");
    bool const        deep = thorough();
#ifdef CHOOSER
    if (mode == "rng") {
        int const d = deep ? 2 : 1;
        explore_rng([&](InstFn const& f) { circulants(5, deep ? 7 : 6, {0, 2, 5}, {1}, f); }, d);
        explore_rng([&](InstFn const& f) { graphs(4, {0, 5}, {1}, f); }, 1);
    }
#else
    if (mode == "small") {
        std::vector<double> const a3 = {0, 1, 2.5}, a2 = {1, 3}, a4 = {0.1, 1, 7.3, 1000};
        explore("few", [&](InstFn const& f) {
            for (int n = 1; n <= 3; ++n) {
                all_small(1, n, a3, true, f);
                all_small(2, n, a3, true, f);
            }
            all_small(3, 2, a3, true, f);
            all_small(3, 3, a3, true, f);
            all_small(2, 2, a3, true, f, true);
        });
        explore(deep ? "few" : "two", [&](InstFn const& f) {
            all_small(3, 3, a4, true, f);
            all_small(3, 4, a3, false, f);
            all_small(4, 3, a3, false, f);
            all_small(4, 4, a2, false, f);
            all_small(3, 5, a2, false, f);
        });
        if (deep)
            explore("two", [&](InstFn const& f) {
                all_small(4, 4, a3, false, f);
                all_small(4, 5, a2, false, f);
                all_small(5, 4, a2, false, f);
                all_small(3, 6, a2, false, f);
                all_small(3, 5, a3, false, f);
            });
    } else if (mode == "struct") {
        explore("two", [&](InstFn const& f) {
            circulants(3, deep ? 11 : 8, {0, 1, 2, 3, 4, 5}, {1, 10}, f);
            graphs(4, {0, 1, 4, 5}, {1, 10}, f);
            complete_designs(4, deep ? 9 : 7, {0, 1, 2, 3, 4, 5}, {1, 10}, f);
            stars(deep ? 9 : 10, deep ? 15 : 12, f);
        });
        explore("one", [&](InstFn const& f) { graphs(5, deep ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 5}, {1, 10}, f); });
        if (deep)
            explore("one", [&](InstFn const& f) { graphs(6, {0, 5}, {1}, f); });
    } else if (mode == "params") {
        explore("all", [&](InstFn const& f) {
            circulants(5, deep ? 7 : 5, {0, 3, 5}, {1}, f);
            complete_designs(5, deep ? 7 : 6, {2}, {1, 10}, f);
            graphs(4, {2}, {10}, [&](Inst const& in) {
                if (deep || in.nrows >= 5)
                    f(in);
            });
        });
    } else if (mode == "mem") {  // for the address/undefined-behaviour sanitizer build
        explore("few", [&](InstFn const& f) {
            all_small(2, 2, {0, 1, 2.5}, true, f, true);
            all_small(3, 3, {0, 2.5}, deep, f);
            circulants(5, deep ? 8 : 6, {0, 3}, {1, 10}, f);
            complete_designs(5, deep ? 7 : 6, {2, 4}, {1, 10}, f);
            stars(11, 11, f);
            replicated({31}, {1}, f);
        });
    } else if (mode == "big") {
        explore("two", [&](InstFn const& f) {
            replicated(deep ? std::vector<int>{31, 60, 100, 200, 400} : std::vector<int>{31, 60, 210}, deep ? std::vector<double>{1, 10, 0.37} : std::vector<double>{1}, f);
            if (!deep) {
                auto b = blocks({10});
                f(replicate(b[0], 81, true, 0));
                f(replicate(b[3], 100, false, 3));
            }
        });
    }
#endif
    return finish();
}
