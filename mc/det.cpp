// C06: the result is a function of (instance, parameters, seed) only, and inputs are not modified.
#include <malloc.h>

#include "common/cftio.hpp"
#include "common/vclock.hpp"

#include "algorithms/Refinement.hpp"

using namespace mc;

struct Cfg {
    float    eps;
    uint64_t heur;
    uint64_t seed;
    uint64_t verbose;
    bool     three_phase;
};

struct Obs {
    std::vector<cft::cidx_t> idxs;
    std::vector<cft::real_t> mults;
    cft::real_t              cost, lb;
    std::vector<uint64_t>    rnd;

    bool operator==(Obs const& o) const {
        return idxs == o.idxs && mults == o.mults && memcmp(&cost, &o.cost, sizeof cost) == 0 && memcmp(&lb, &o.lb, sizeof lb) == 0 && rnd == o.rnd;
    }

    std::string str() const {
        return strf("cost %.9g lb %.9g idxs %s", (double)cost, (double)lb, idx_str(idxs).c_str());
    }
};

// overwrite the stack area the solver is going to use
__attribute__((noinline)) static void dirty_stack(int v) {
    volatile char b[32768];
    for (size_t i = 0; i < sizeof b; ++i)
        b[i] = static_cast<char>(v);
}

static Obs go(Inst const& in, cft::Instance const& inst, Cfg const& c, cft::Solution const& ws, int fill, uint64_t step_ns, int reseed) {
    mallopt(M_PERTURB, fill);
    dirty_stack(fill);
    vclock().reset();
    vclock().step_ns = step_ns;
    cft::Environment env;
    env.verbose    = c.verbose;
    env.epsilon    = c.eps;
    env.heur_iters = c.heur;
    env.seed       = c.seed;
    if (reseed) {
        // the generator of a copy that has been used does not influence this one
        cft::Environment other = env;
        for (int i = 0; i < 5; ++i)
            other.rnd();
    }
    env.rnd = cft::prng_t(c.seed);
    cft::Instance const    copy = inst;
    cft::Solution const    wcpy = ws;
    cft::Environment const ecpy = env;
    cft::CftResult         r;
    if (c.three_phase) {
        cft::ThreePhase tp;
        cft::Instance   work = inst;
        r                    = tp(env, work);
    } else
        r = cft::run(env, inst, ws);
    MC_CHECK(same_inst(copy, inst), "the instance passed in was modified");
    MC_CHECK(wcpy.idxs == ws.idxs && (wcpy.cost == ws.cost || ws.idxs.empty()), "the warm start passed in was modified");
    MC_CHECK(ecpy.seed == env.seed && ecpy.time_limit == env.time_limit && ecpy.verbose == env.verbose && ecpy.epsilon == env.epsilon &&
                 ecpy.heur_iters == env.heur_iters && ecpy.alpha == env.alpha && ecpy.beta == env.beta && ecpy.min_fixing == env.min_fixing &&
                 ecpy.abs_subgrad_exit == env.abs_subgrad_exit && ecpy.rel_subgrad_exit == env.rel_subgrad_exit &&
                 ecpy.use_unit_costs == env.use_unit_costs && ecpy.inst_path == env.inst_path && ecpy.sol_path == env.sol_path &&
                 ecpy.initsol_path == env.initsol_path && ecpy.parser == env.parser && ecpy.timer.start == env.timer.start,
             "the parameters passed in were modified");
    transition();
    validated();
    Obs o{r.sol.idxs, r.dual.mults, r.sol.cost, r.dual.lb, {}};
    for (int i = 0; i < 3; ++i)
        o.rnd.push_back(env.rnd());  // the generator was advanced identically
    (void)in;
    mallopt(M_PERTURB, 0);
    return o;
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const deep = thorough();
    // solver output goes nowhere
    if (!freopen("/dev/null", "w", stdout))
        return 3;

    std::string const mode = arg("--mode");
    std::vector<Inst> pool;
    auto              add = [&](Inst const& in) { pool.push_back(rounded(in)); };
    if (mode == "single") {
        // every instance: fill patterns, verbosity levels, clock speeds
        all_small(2, 3, {0, 1, 2.5}, true, add);
        all_small(3, 3, {0, 1, 2.5}, false, add);
        all_small(3, 4, {1, 3}, false, add);
        circulants(4, deep ? 9 : 7, {0, 2, 3, 5}, {1, 10}, add);
        graphs(4, {0, 2, 5}, {1, 10}, add);
        complete_designs(4, 7, {0, 2, 5}, {1, 10}, add);
        stars(11, deep ? 13 : 11, add);
        replicated({31, 60}, {1}, add);
        if (deep)
            graphs(5, {0, 5}, {10}, add);
        for (auto const& in : pool)
            for (int s = 0; s < 2; ++s)
                for (int t = 0; t < 2; ++t) {
                    Cfg c = {0.01f, 12, static_cast<uint64_t>(s) * 77, 0, t == 1};
                    if (!take([&] { return in.str() + strf(" | seed=%llu %s: fills, verbosity, clock", (unsigned long long)c.seed, t ? "three-phase" : "run"); }))
                        continue;
                    auto const    inst = to_cft(in);
                    cft::Solution none;
                    none.cost     = 0;
                    Obs const ref = go(in, inst, c, none, 0, 0, 0);
                    state(mix(in.hash(), hash_bytes(&ref.lb, sizeof ref.lb)));
                    for (int fill : {0x00, 0x55, 0xaa, 0xff}) {
                        Obs const o = go(in, inst, c, none, fill, 0, 0);
                        MC_CHECK(o == ref, "heap/stack fill %02x changes the result: %s vs %s", fill, ref.str().c_str(), o.str().c_str());
                    }
                    for (uint64_t v = 0; v <= 6; ++v) {
                        Cfg cv      = c;
                        cv.verbose  = v;
                        Obs const o = go(in, inst, cv, none, 0, 0, 0);
                        MC_CHECK(o == ref, "verbosity %llu changes the result: %s vs %s", (unsigned long long)v, ref.str().c_str(), o.str().c_str());
                    }
                    Obs const slow = go(in, inst, c, none, 0, 1700000, 1);
                    MC_CHECK(slow == ref, "the clock changes the result of an unlimited run: %s vs %s", ref.str().c_str(), slow.str().c_str());
                    if (t == 0) {  // repeated warm-started runs
                        cft::Solution ws;
                        ws.idxs     = ref.idxs;
                        ws.cost     = ref.cost;
                        Obs const a = go(in, inst, c, ws, 0, 0, 0), b = go(in, inst, c, ws, 0x5a, 0, 0);
                        MC_CHECK(a == b, "warm-started runs differ: %s vs %s", a.str().c_str(), b.str().c_str());
                    }
                }
    } else {
        // every ordered pair (thorough: triple) of runs in one process
        circulants(4, 6, {3}, {1}, [&](Inst const& in) {
            if (in.tag.find("D=3 ") != std::string::npos || in.tag.find("D=7 ") != std::string::npos)
                add(in);
        });
        graphs(4, {5}, {10}, [&](Inst const& in) {
            if (in.nrows == 6 || in.tag.find("E=b ") != std::string::npos)
                add(in);
        });
        complete_designs(5, 6, {2}, {1}, add);
        all_small(2, 2, {0, 2.5}, false, add);
        int k = 0;
        stars(11, 11, [&](Inst const& in) {
            if (k++ % 24 == 0)
                add(in);
        });
        replicated({31}, {1}, add);
        std::vector<cft::Instance> insts;
        std::vector<Obs>           ref;
        cft::Solution              none;
        none.cost = 0;
        Cfg const c = {0.01f, 12, 3, 0, false};
        for (auto const& in : pool)
            insts.push_back(to_cft(in));
        for (size_t b = 0; b < pool.size(); ++b)
            for (size_t a = 0; a < pool.size(); ++a)
                for (size_t z = 0; z < (deep ? pool.size() : 1); ++z) {
                    if (!take([&] { return "before: " + (deep ? pool[z].str() + " then " : std::string()) + pool[a].str() + " | then: " + pool[b].str(); }))
                        continue;
                    Obs const first = go(pool[b], insts[b], c, none, 0, 0, 0);
                    if (deep)
                        go(pool[z], insts[z], c, none, 0xff, 0, 0);
                    go(pool[a], insts[a], c, none, 0x55, 0, 0);
                    Obs const again = go(pool[b], insts[b], c, none, 0xaa, 0, 0);
                    MC_CHECK(first == again, "the result depends on an earlier run: %s vs %s", first.str().c_str(), again.str().c_str());
                    state(mix(mix(pool[a].hash(), pool[b].hash()), hash_bytes(&again.lb, sizeof again.lb)));
                }
    }
    return finish();
}
