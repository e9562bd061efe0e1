// C04: every feasible starting cover of every instance x every position at which the limit expires.
#include "common/cftio.hpp"
#include "common/vclock.hpp"

#include "algorithms/Refinement.hpp"

using namespace mc;

struct Cfg {
    float    eps;
    uint64_t heur;
    float    beta;
};

static void run_one(Inst const& in, cft::Instance const& inst, Cfg const& c, cft::Solution const& ws, int64_t expire, uint64_t* queries) {
    vclock().reset();
    cft::Environment env;
    env.verbose    = 0;
    env.epsilon    = c.eps;
    env.heur_iters = c.heur;
    env.beta       = c.beta;
    if (expire >= 0) {
        env.time_limit     = 100.0;
        vclock().expire_at = vclock().queries + static_cast<uint64_t>(expire);
    }
    uint64_t const q0 = vclock().queries;
    auto           r  = cft::run(env, inst, ws);
    if (queries)
        *queries = vclock().queries - q0;
    transition();
    validated();
    std::string const where = strf(" (warm start %s cost %.9g, expiry at observation %lld)", idx_str(ws.idxs).c_str(), (double)ws.cost, (long long)expire);
    auto const        ce    = cover_error(in, r.sol.idxs);
    MC_CHECK(ce.empty(), "%s%s", ce.c_str(), where.c_str());
    auto const xe = cost_error(in, r.sol.idxs, static_cast<double>(r.sol.cost));
    MC_CHECK(xe.empty(), "%s%s", xe.c_str(), where.c_str());
    MC_CHECK(r.sol.cost <= ws.cost, "result cost %.9g above the starting cost%s", (double)r.sol.cost, where.c_str());
    double const real = cost_of(in, r.sol.idxs);
    MC_CHECK(real <= cost_of(in, ws.idxs) + tol(real), "result columns cost %.9g, more than the starting ones%s", real, where.c_str());
    uint64_t h = mix(in.hash(), static_cast<uint64_t>(expire + 1));
    for (auto j : ws.idxs)
        h = mix(h, static_cast<uint64_t>(j) + 1);
    for (auto j : r.sol.idxs)
        h = mix(h, static_cast<uint64_t>(j) + 1);
    state(h);
    if (r.sol.cost == ws.cost && r.sol.idxs == ws.idxs)
        count("kept_warm_start");
    else
        count("improved");
}

static void explore(Inst const& in0, std::vector<Cfg> const& cs, bool expiries, size_t max_covers) {
    Inst const          in   = rounded(in0);
    size_t const        n    = in.cols.size();
    std::vector<size_t> sets;
    if (n <= 10) {
        for (size_t m = 1; m < (1ULL << n); ++m)
            sets.push_back(m);
    }
    cft::Instance inst;
    bool          built = false;
    size_t        used  = 0;
    for (size_t m : sets) {
        cft::Solution ws;
        ws.cost = 0;
        for (size_t j = 0; j < n; ++j)
            if (m >> j & 1) {
                ws.idxs.push_back(static_cast<cft::cidx_t>(j));
                ws.cost += static_cast<cft::real_t>(in.costs[j]);
            }
        if (!cover_error(in, ws.idxs).empty())
            continue;
        if (++used > max_covers)
            break;
        for (auto const& c : cs) {
            if (!take([&] { return in.str() + strf(" | eps=%g heur=%llu beta=%g warm=", c.eps, (unsigned long long)c.heur, c.beta) + idx_str(ws.idxs); }))
                continue;
            if (!built) {
                inst  = to_cft(in);
                built = true;
            }
            uint64_t q = 0;
            run_one(in, inst, c, ws, -1, &q);
            // reversed order of the starting columns
            if (ws.idxs.size() > 1) {
                cft::Solution rv = ws;
                std::reverse(rv.idxs.begin(), rv.idxs.end());
                run_one(in, inst, c, rv, -1, nullptr);
            }
            if (expiries)
                for (uint64_t k = 0; k < q; ++k)
                    run_one(in, inst, c, ws, static_cast<int64_t>(k), nullptr);
            count_max("max_expiry_points", q);
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const             deep  = thorough();
    std::vector<Cfg> const quick = deep ? std::vector<Cfg>{{0.999f, 250, 1.0f}, {0.01f, 20, 1.0f}, {0.0f, 5, 1.0f}}
                                        : std::vector<Cfg>{{0.999f, 20, 1.0f}, {0.01f, 5, 1.0f}};
    std::vector<Cfg> const small = {{0.01f, 1, 1.0f}, {0.999f, 2, 0.9f}};
    auto                   plain = [&](Inst const& in) { explore(in, quick, false, ~0ULL); };
    auto                   exp   = [&](Inst const& in) { explore(in, small, true, ~0ULL); };
    std::vector<double> const a3 = {0, 1, 2.5}, a2 = {1, 3}, f3 = {0.1, 1.1, 3.7};
    all_small(1, 3, a3, true, plain);
    all_small(2, 3, a3, true, plain);
    all_small(3, 3, a3, false, plain);
    all_small(3, 3, f3, false, plain);
    all_small(3, 4, a2, false, [&](Inst const& in) { explore(in, {quick[1]}, false, 8); });
    circulants(4, deep ? 9 : 7, {0, 2, 3, 5}, {1, 10}, plain);
    graphs(4, {0, 2, 5}, {1, 10}, plain);
    if (deep) {
        all_small(3, 4, a3, false, plain);
        all_small(4, 4, a2, false, plain);
        graphs(5, {0, 5}, {1}, plain);
    }
    all_small(2, 2, a3, true, exp);
    all_small(3, 3, a2, false, exp);
    circulants(5, deep ? 7 : 5, {0, 3}, {1, 10}, exp);
    graphs(4, {0, 5}, deep ? std::vector<double>{1, 10} : std::vector<double>{10}, exp);
    if (deep)
        graphs(5, {5}, {10}, [&](Inst const& in) { explore(in, {small[0]}, true, 8); });
    return finish();
}
