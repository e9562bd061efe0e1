// C14: the subgradient phase and the heuristic phase on every instance, multiplier vector, core and
// cutoff of the families below.
#include "common/cftio.hpp"
#include "greedy/Greedy.hpp"
#include "subgradient/Pricer.hpp"
#include "subgradient/Subgradient.hpp"

using namespace mc;
using RVec = std::vector<cft::real_t>;

static std::string vec(RVec const& u) {
    std::string s = "[";
    if (u.size() <= 40)
        for (auto x : u)
            s += strf("%g ", (double)x);
    return s + "]";
}

static std::vector<RVec> mult_vectors(Inst const& in, std::vector<double> const& alpha, bool scaled, double limit) {
    double scale = 1;
    if (scaled) {
        scale = 0;
        for (double c : in.costs)
            scale = std::max(scale, c);
        scale = scale > 0 ? scale : 1;
    }
    std::vector<RVec> out;
    auto const        n = static_cast<size_t>(in.nrows);
    if (std::pow(static_cast<double>(alpha.size()), static_cast<double>(n)) <= limit) {
        std::vector<int> d(n, 0);
        do {
            RVec u;
            for (int x : d)
                u.push_back(static_cast<cft::real_t>(scale * alpha[static_cast<size_t>(x)]));
            out.push_back(u);
        } while (odo(d, static_cast<int>(alpha.size())));
        return out;
    }
    for (double a : alpha)
        out.push_back(RVec(n, static_cast<cft::real_t>(scale * a)));
    for (size_t s = 0; s < alpha.size(); ++s) {
        RVec u;
        for (size_t i = 0; i < n; ++i)
            u.push_back(static_cast<cft::real_t>(scale * alpha[(i + s) % alpha.size()]));
        out.push_back(u);
    }
    return out;
}

// Core instances to start from: the whole instance, the priced core, and the first columns per row.
static cft::InstAndMap make_core(cft::Instance const& inst, RVec const& u, int kind) {
    cft::InstAndMap core;
    if (kind == 1) {
        cft::Pricer p;
        p(inst, u, core);
        return core;
    }
    std::vector<char> take_col(inst.cols.size(), kind == 0);
    if (kind == 2)
        for (auto const& r : inst.rows)
            for (size_t n = 0; n < r.size() && n < 2; ++n)
                take_col[static_cast<size_t>(r[n])] = 1;
    for (size_t j = 0; j < take_col.size(); ++j)
        if (take_col[j]) {
            cft::push_back_col_from(inst, static_cast<cft::cidx_t>(j), core.inst);
            core.col_map.push_back(static_cast<cft::cidx_t>(j));
        }
    cft::fill_rows_from_cols(core.inst.cols, static_cast<cft::ridx_t>(inst.rows.size()), core.inst.rows);
    return core;
}

static std::string core_error(Inst const& in, cft::InstAndMap const& core) {
    size_t const m = core.col_map.size(), n = in.cols.size();
    if (core.inst.cols.size() != m || core.inst.costs.size() != m)
        return strf("core of %zu columns, %zu costs, %zu mapped", (size_t)core.inst.cols.size(), core.inst.costs.size(), m);
    if (core.inst.rows.size() != static_cast<size_t>(in.nrows))
        return strf("core of %zu rows instead of %d", core.inst.rows.size(), in.nrows);
    std::vector<std::vector<cft::cidx_t>> rows(static_cast<size_t>(in.nrows));
    std::vector<char>                     seen(n, 0);
    for (size_t k = 0; k < m; ++k) {
        auto const j = static_cast<size_t>(core.col_map[k]);
        if (j >= n || seen[j])
            return strf("core column %zu mapped to %zu (out of range or repeated)", k, j);
        seen[j] = 1;
        std::vector<int> c;
        for (auto i : core.inst.cols[static_cast<cft::cidx_t>(k)]) {
            c.push_back(static_cast<int>(i));
            rows[static_cast<size_t>(i)].push_back(static_cast<cft::cidx_t>(k));
        }
        if (c != in.cols[j] || static_cast<double>(core.inst.costs[k]) != in.costs[j])
            return strf("core column %zu differs from column %zu", k, j);
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        if (core.inst.rows[i] != rows[i])
            return strf("row %zu of the core is not the view of its columns", i);
        if (rows[i].empty())
            return strf("row %zu has no column in the core", i);
    }
    return "";
}

struct Plan {
    std::vector<double> alpha;
    bool                scaled;
    double              limit;
    std::vector<int>    cores;
    std::vector<int>    cuts;
    std::vector<float>  epsilons;
    std::vector<uint64_t> iters;
};

static void explore(Inst const& in0, Plan const& p) {
    if (!take([&] { return in0.str(); }))
        return;
    Inst const       in   = rounded(in0);
    auto const       inst = to_cft(in);
    double const     opt  = in.opt();
    double const     sum  = in.sum_costs();
    double const     cutv[] = {opt, opt + 0.5, opt * 1.25 + 1, sum + 1, sum * 10 + 100, opt * 0.9};
    std::string      w;
    cft::Environment env;
    env.verbose = 0;
    rt().desc   = [&] { return in0.str() + w; };
    for (auto const& u : mult_vectors(in, p.alpha, p.scaled, p.limit))
        for (int kind : p.cores)
            for (float eps : p.epsilons) {
                env.epsilon     = eps;
                auto const base = make_core(inst, u, kind);
                for (int ci : p.cuts) {
                    double const cut = cutv[ci];
                    w                = strf(" | u=%s core=%d eps=%g cutoff=%.9g", vec(u).c_str(), kind, eps, cut);
                    cft::Subgradient sg;
                    cft::Pricer      pr;
                    auto             core = base;
                    auto             m    = u;
                    cft::real_t      step = 0.1f;
                    double const     lb   = static_cast<double>(sg(env, inst, static_cast<cft::real_t>(cut), pr, core, step, m));
                    transition();
                    validated();
                    double umax = 0;
                    for (auto x : u)
                        umax = std::max(umax, static_cast<double>(x));
                    MC_CHECK(lb <= opt + tol(opt) + 2e-7 * umax * (in.nrows + 2), "bound %.9g above the optimum %.9g", lb, opt);
                    MC_CHECK(m.size() == static_cast<size_t>(in.nrows), "%zu multipliers for %d rows", m.size(), in.nrows);
                    for (auto x : m)
                        MC_CHECK(std::isfinite((double)x) && x >= 0, "multiplier %.9g", (double)x);
                    MC_CHECK(std::isfinite((double)step) && step > 0, "step size %.9g", (double)step);
                    auto const ce = core_error(in, core);
                    MC_CHECK(ce.empty(), "%s", ce.c_str());
                    state(mix(mix(in.hash(), hash_bytes(m.data(), m.size() * sizeof(m[0]))), hash_bytes(&lb, sizeof lb)));
                    count_max("max_core_columns", core.col_map.size());
                    if (lb > -1e30)
                        count("priced");

                    // heuristic phase on the resulting core, with the solution to beat at `cut`
                    for (uint64_t it : p.iters)
                        for (int how = 0; how < 2; ++how) {
                            env.heur_iters = it;
                            cft::Greedy      g;
                            cft::Subgradient sg2;
                            cft::Solution    best;
                            best.cost = static_cast<cft::real_t>(cut);
                            if (how == 1) {  // a given feasible solution with its cost
                                best.cost = 0;
                                for (size_t k = 0; k < core.col_map.size(); ++k) {
                                    best.idxs.push_back(static_cast<cft::cidx_t>(k));
                                    best.cost += core.inst.costs[k];
                                }
                            }
                            auto const before = best;
                            auto       hm     = m;
                            if (ce.empty())
                                sg2.heuristic(env, core.inst, step, g, best, hm);
                            transition();
                            validated();
                            std::string const hw = strf(" (heuristic phase, %llu iterations, solution to beat costs %.9g)", (unsigned long long)it, (double)before.cost);
                            MC_CHECK(hm.size() == static_cast<size_t>(in.nrows), "%zu multipliers for %d rows%s", hm.size(), in.nrows, hw.c_str());
                            for (auto x : hm)
                                MC_CHECK(std::isfinite((double)x) && x >= 0, "multiplier %.9g%s", (double)x, hw.c_str());
                            bool const same = best.idxs == before.idxs && best.cost == before.cost;
                            if (!same) {
                                Inst ci2 = in;
                                ci2.cols.clear();
                                ci2.costs.clear();
                                for (auto j : core.col_map) {
                                    ci2.cols.push_back(in.cols[static_cast<size_t>(j)]);
                                    ci2.costs.push_back(in.costs[static_cast<size_t>(j)]);
                                }
                                auto const e = cover_error(ci2, best.idxs);
                                MC_CHECK(e.empty(), "%s%s", e.c_str(), hw.c_str());
                                auto const x = cost_error(ci2, best.idxs, (double)best.cost);
                                MC_CHECK(x.empty(), "%s%s", x.c_str(), hw.c_str());
                                MC_CHECK(best.cost < before.cost, "replaced by a solution of cost %.9g%s", (double)best.cost, hw.c_str());
                                count("replaced");
                            } else
                                count("untouched");
                            state(mix(mix(in.hash(), hash_bytes(best.idxs.data(), best.idxs.size() * sizeof(best.idxs[0]))), hash_bytes(hm.data(), hm.size() * sizeof(hm[0]))));
                        }
                }
            }
    rt().desc = [] { return std::string(); };
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const                deep = thorough();
    std::vector<double> const a3 = {0, 1, 2.5}, a2 = {1, 3};
    Plan const tiny = {{0, 0.5, 2}, false, 100, {0, 1, 2}, {0, 2, 3}, {0.999f, 0.01f}, {1, 5}};
    Plan const one  = {{0, 0.5}, false, 100, {2}, {0, 1, 3, 4, 5}, {0.0f, 0.01f}, {20}};
    Plan const mid  = {{0, 0.3, 1}, true, 81, {0, 1, 2}, {0, 1, 2, 3, 4, 5}, {0.999f, 0.0f}, {3, 100}};
    Plan const wild = {{0, 1, 1e6}, false, 81, {1}, {0, 2, 4}, {0.999f, 0.01f}, {50}};
    auto       ft   = [&](Inst const& in) { explore(in, tiny); };
    auto       fo   = [&](Inst const& in) { explore(in, one); };
    auto       fm   = [&](Inst const& in) { explore(in, mid); };
    auto       fw   = [&](Inst const& in) { explore(in, wild); };
    all_small(1, 3, a3, true, ft);
    all_small(2, 3, a3, true, deep ? InstFn(ft) : InstFn(fo));
    all_small(3, 3, a2, false, ft);
    all_small(3, 3, {0.1, 1.1, 3.7}, false, fo);
    all_small(3, 4, a2, false, fo);
    all_small(3, 3, a2, false, fw);
    if (deep) {
        all_small(3, 3, a3, false, ft);
        all_small(3, 4, a2, false, ft);
        all_small(4, 4, a2, false, fo);
    }
    circulants(4, deep ? 8 : 6, {0, 2, 3, 5}, {0.1, 1, 10}, fm);
    circulants(5, 6, {0, 5}, {1, 1000}, fw);
    graphs(4, {0, 5}, {1, 10}, fm);
    complete_designs(5, 6, {0, 2, 5}, {1, 10}, fm);
    Plan const big = {{0, 0.3}, true, 1, {0, 1}, {0, 2, 3}, {0.999f}, {5}};
    replicated({31, 60, 90}, {1, 10}, [&](Inst const& in) { explore(in, big); });
    return finish();
}
