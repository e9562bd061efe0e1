// C11: every sequence of column fixings; C12: the column-fixing step; C13: pricing.
#include <set>

#include "common/cftio.hpp"
#include "core/utils.hpp"
#include "fixing/ColFixing.hpp"
#include "fixing/FixingData.hpp"
#include "subgradient/Pricer.hpp"

using namespace mc;

static std::string show(std::vector<int> const& v) {
    std::string s = "{";
    for (int j : v)
        s += std::to_string(j) + " ";
    return s + "}";
}

// Reference: the residual of the original instance after fixing `fixed` (original column indexes).
struct Residual {
    std::vector<int>              rows, cols;      // original indexes of what is left, in order
    std::vector<std::vector<int>> col_rows;        // over residual row numbers
    std::vector<double>           costs;
    double                        fixed_cost = 0;
};

static Residual residual(Inst const& in, std::vector<int> const& fixed) {
    Residual          r;
    std::vector<char> cov(static_cast<size_t>(in.nrows), 0), fx(in.cols.size(), 0);
    for (int j : fixed) {
        fx[static_cast<size_t>(j)] = 1;
        r.fixed_cost += in.costs[static_cast<size_t>(j)];
        for (int i : in.cols[static_cast<size_t>(j)])
            cov[static_cast<size_t>(i)] = 1;
    }
    std::vector<int> newrow(static_cast<size_t>(in.nrows), -1);
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)]) {
            newrow[static_cast<size_t>(i)] = static_cast<int>(r.rows.size());
            r.rows.push_back(i);
        }
    for (size_t j = 0; j < in.cols.size(); ++j) {
        if (fx[j])
            continue;
        std::vector<int> c;
        for (int i : in.cols[j])
            if (newrow[static_cast<size_t>(i)] >= 0)
                c.push_back(newrow[static_cast<size_t>(i)]);
        if (c.empty() && !fixed.empty())
            continue;
        r.cols.push_back(static_cast<int>(j));
        r.col_rows.push_back(c);
        r.costs.push_back(in.costs[j]);
    }
    return r;
}

// Compares the library's residual instance and fixing data with the reference. Empty if equal.
static std::string residual_error(Inst const& in, std::vector<int> const& fixed, cft::Instance const& inst, cft::FixingData const& fx) {
    Residual const r = residual(in, fixed);
    if (inst.rows.size() != r.rows.size())
        return strf("%zu rows left, expected %zu", inst.rows.size(), r.rows.size());
    size_t const ncols = r.rows.empty() ? 0 : r.cols.size();
    if (inst.cols.size() != ncols || inst.costs.size() != ncols)
        return strf("%zu columns and %zu costs left, expected %zu", (size_t)inst.cols.size(), inst.costs.size(), ncols);
    std::vector<std::vector<int>> rows(r.rows.size());
    for (size_t k = 0; k < ncols; ++k) {
        auto const       col = inst.cols[static_cast<cft::cidx_t>(k)];
        std::vector<int> c;
        for (auto i : col)
            c.push_back(static_cast<int>(i));
        if (c != r.col_rows[k])
            return strf("column %zu holds rows ", k) + show(c) + ", expected " + show(r.col_rows[k]);
        if (static_cast<double>(inst.costs[k]) != r.costs[k])
            return strf("column %zu costs %.9g, expected %.9g", k, (double)inst.costs[k], r.costs[k]);
        for (int i : c)
            rows[static_cast<size_t>(i)].push_back(static_cast<int>(k));
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        std::vector<int> got;
        for (auto j : inst.rows[i])
            got.push_back(static_cast<int>(j));
        if (got != rows[i])
            return strf("row %zu lists columns ", i) + show(got) + ", expected " + show(rows[i]);
    }
    if (fx.curr2orig.col_map.size() != ncols || fx.curr2orig.row_map.size() != r.rows.size())
        return strf("maps of sizes %zu (columns) and %zu (rows), expected %zu and %zu", (size_t)fx.curr2orig.col_map.size(), (size_t)fx.curr2orig.row_map.size(), ncols, r.rows.size());
    for (size_t k = 0; k < ncols; ++k)
        if (static_cast<int>(fx.curr2orig.col_map[k]) != r.cols[k])
            return strf("column %zu mapped to original %d, expected %d", k, (int)fx.curr2orig.col_map[k], r.cols[k]);
    for (size_t i = 0; i < r.rows.size(); ++i)
        if (static_cast<int>(fx.curr2orig.row_map[i]) != r.rows[i])
            return strf("row %zu mapped to original %d, expected %d", i, (int)fx.curr2orig.row_map[i], r.rows[i]);
    std::vector<int> a = fixed, b;
    for (auto j : fx.fixed_cols)
        b.push_back(static_cast<int>(j));
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b)
        return "fixed columns " + show(b) + ", expected " + show(a);
    if (!(std::fabs(static_cast<double>(fx.fixed_cost) - r.fixed_cost) <= 1e-5 * (1 + r.fixed_cost)))
        return strf("fixed cost %.9g, expected %.9g", (double)fx.fixed_cost, r.fixed_cost);
    return "";
}

// ------------------------------------------------------------------------------------------- C11 ----
struct FixState {
    cft::Instance    inst;
    cft::FixingData  fx;
    cft::IdxsMaps    maps;
    std::vector<int> fixed;  // original indexes
};

static void fix_dfs(Inst const& in, FixState const& s, int depth, std::string const& hist, size_t max_subset) {
    size_t const n = s.inst.cols.size();
    if (n == 0 || depth == 0)
        return;
    auto step = [&](std::vector<int> const& sub) {
        FixState                 t = s;
        std::vector<cft::cidx_t> v;
        for (int j : sub) {
            v.push_back(static_cast<cft::cidx_t>(j));
            t.fixed.push_back(static_cast<int>(s.fx.curr2orig.col_map[static_cast<size_t>(j)]));
        }
        cft::fix_columns_and_compute_maps(v, t.inst, t.fx, t.maps);
        transition();
        validated();
        std::string const h   = hist + " fix" + show(sub);
        auto const        err = residual_error(in, t.fixed, t.inst, t.fx);
        if (!err.empty()) {
            fail(err + " after" + h);
            return;
        }
        // the row map from before to after the step
        if (t.maps.row_map.size() != s.inst.rows.size())
            fail(strf("row map of size %zu for %zu rows after", (size_t)t.maps.row_map.size(), s.inst.rows.size()) + h);
        else {
            size_t k = 0;
            for (size_t i = 0; i < s.inst.rows.size(); ++i) {
                bool const left = k < t.fx.curr2orig.row_map.size() && s.fx.curr2orig.row_map[i] == t.fx.curr2orig.row_map[k];
                auto const got  = t.maps.row_map[i];
                bool const ok   = left ? static_cast<size_t>(got) == k : got == cft::removed_ridx;
                MC_CHECK(ok, "row %zu mapped to %d after%s", i, (int)got, h.c_str());
                k += left;
            }
        }
        uint64_t hs = mix(in.hash(), 5);
        for (int j : t.fixed)
            hs = mix(hs, static_cast<uint64_t>(j) + 1);
        state(hs);
        fix_dfs(in, t, depth - 1, h, max_subset);
    };
    if (n <= 12) {
        for (unsigned m = 1; m < (1U << n); ++m) {
            auto const sub = mask_rows(m);
            if (sub.size() > max_subset)
                continue;
            step(sub);
            if (sub.size() > 1) {
                auto rev = sub;
                std::reverse(rev.begin(), rev.end());
                step(rev);
            }
        }
    } else {
        for (size_t j = 0; j < n; ++j)
            step({static_cast<int>(j)});
    }
}

static FixState start(Inst const& in) {
    FixState s;
    s.inst = to_cft(in);
    cft::make_identity_fixing_data(static_cast<cft::cidx_t>(in.cols.size()), static_cast<cft::ridx_t>(in.nrows), s.fx);
    return s;
}

static void c11(Inst const& in0, int depth, size_t max_subset) {
    if (!take([&] { return in0.str() + strf(" | all fixing sequences of length %d, subsets of size <= %zu", depth, max_subset); }))
        return;
    Inst const in = rounded(in0);
    FixState   s  = start(in);
    auto const e  = residual_error(in, {}, s.inst, s.fx);
    MC_CHECK(e.empty(), "identity fixing data: %s", e.c_str());
    fix_dfs(in, s, depth, "", max_subset);
    // stale contents must not survive make_identity_fixing_data
    FixState t = s;
    cft::fix_columns_and_compute_maps({static_cast<cft::cidx_t>(0)}, t.inst, t.fx, t.maps);
    t.inst = s.inst;
    cft::make_identity_fixing_data(static_cast<cft::cidx_t>(in.cols.size()), static_cast<cft::ridx_t>(in.nrows), t.fx);
    auto const e2 = residual_error(in, {}, t.inst, t.fx);
    MC_CHECK(e2.empty(), "identity fixing data over old contents: %s", e2.c_str());
}

// ------------------------------------------------------------------------------------------- C12 ----
using RVec = std::vector<cft::real_t>;

static std::vector<RVec> mult_vectors(Inst const& in, std::vector<double> const& alpha, bool scaled) {
    double scale = 1;
    if (scaled) {
        scale = 0;
        for (double c : in.costs)
            scale = std::max(scale, c);
        scale = scale > 0 ? scale : 1;
    }
    std::vector<RVec> out;
    auto const        n = static_cast<size_t>(in.nrows);
    double            vol = std::pow(static_cast<double>(alpha.size()), static_cast<double>(n));
    if (vol <= 2500) {
        std::vector<int> d(n, 0);
        do {
            RVec u;
            for (int x : d)
                u.push_back(static_cast<cft::real_t>(scale * alpha[static_cast<size_t>(x)]));
            out.push_back(u);
        } while (odo(d, static_cast<int>(alpha.size())));
        return out;
    }
    size_t const step = n > 64 ? n / 16 : 1;
    for (double a : alpha) {
        RVec const base(n, static_cast<cft::real_t>(scale * a));
        out.push_back(base);
        for (double b : alpha)
            if (b != a)
                for (size_t i = 0; i < n; i += step) {
                    out.push_back(base);
                    out.back()[i] = static_cast<cft::real_t>(scale * b);
                }
    }
    for (size_t s = 0; s < alpha.size(); ++s)
        for (size_t period = 1; period <= 3; ++period) {
            RVec u;
            for (size_t i = 0; i < n; ++i)
                u.push_back(static_cast<cft::real_t>(scale * alpha[(i / period + s) % alpha.size()]));
            out.push_back(u);
        }
    // pairwise different values: misplaced multipliers become visible
    RVec ramp;
    for (size_t i = 0; i < n; ++i)
        ramp.push_back(static_cast<cft::real_t>(scale * (0.125 + 0.5 * static_cast<double>(i) / static_cast<double>(n))));
    out.push_back(ramp);
    return out;
}

static void c12(Inst const& in0, std::vector<double> const& alpha, bool scaled, int max_steps) {
    if (!take([&] { return in0.str(); }))
        return;
    Inst const       in = rounded(in0);
    auto const       us = mult_vectors(in, alpha, scaled);
    cft::Environment env;
    env.verbose = 0;
    std::string w;
    rt().desc = [&] { return in0.str() + w; };
    for (auto const& u0 : us) {
        w = " | u=";
        if (u0.size() <= 40)
            for (auto x : u0)
                w += strf("%g ", (double)x);
        FixState         s = start(in);
        RVec             u = u0;
        cft::ColFixing   fix;
        cft::Greedy      greedy;
        RVec             byrow = u0;  // original row -> multiplier
        for (int step = 0; step < max_steps && !s.inst.rows.empty(); ++step) {
            auto const before = s;
            // clearly negative, mutually row-disjoint columns
            std::vector<double> rc;
            std::vector<int>    ncover(before.inst.rows.size(), 0);
            for (size_t j = 0; j < before.inst.cols.size(); ++j) {
                double r = static_cast<double>(before.inst.costs[j]);
                for (auto i : before.inst.cols[static_cast<cft::cidx_t>(j)])
                    r -= static_cast<double>(u[static_cast<size_t>(i)]);
                rc.push_back(r);
                if (r < 0)
                    for (auto i : before.inst.cols[static_cast<cft::cidx_t>(j)])
                        ncover[static_cast<size_t>(i)]++;
            }
            fix(env, static_cast<cft::ridx_t>(in.nrows), s.inst, s.fx, u, greedy);
            transition();
            validated();
            std::string const ws = strf(" (step %d)", step);
            size_t const      nb = before.fx.fixed_cols.size();
            MC_CHECK(s.fx.fixed_cols.size() > nb, "no column fixed%s", ws.c_str());
            MC_CHECK(s.inst.rows.size() < before.inst.rows.size(), "no row removed%s", ws.c_str());
            if (s.fx.fixed_cols.size() <= nb || s.inst.rows.size() >= before.inst.rows.size())
                break;
            std::vector<int> fixed;
            for (auto j : s.fx.fixed_cols)
                fixed.push_back(static_cast<int>(j));
            std::set<int> uniq(fixed.begin(), fixed.end());
            bool          range = uniq.size() == fixed.size();
            for (int j : fixed)
                range = range && j >= 0 && static_cast<size_t>(j) < in.cols.size();
            if (!range) {
                fail("fixed columns not distinct original columns: " + show(fixed) + ws);
                break;
            }
            auto const e = residual_error(in, fixed, s.inst, s.fx);
            if (!e.empty()) {
                fail(e + " with fixed columns " + show(fixed) + ws);
                break;
            }
            if (u.size() != s.inst.rows.size()) {
                fail(strf("%zu multipliers for %zu rows", u.size(), s.inst.rows.size()) + ws);
                break;
            }
            for (size_t i = 0; i < u.size(); ++i)
                MC_CHECK(u[i] == byrow[static_cast<size_t>(s.fx.curr2orig.row_map[i])], "row %zu (original %d) has multiplier %.9g, it had %.9g%s", i, (int)s.fx.curr2orig.row_map[i], (double)u[i], (double)byrow[static_cast<size_t>(s.fx.curr2orig.row_map[i])], ws.c_str());
            for (size_t j = 0; j < rc.size(); ++j) {
                if (!(rc[j] < -0.01))
                    continue;
                bool alone = true;
                for (auto i : before.inst.cols[static_cast<cft::cidx_t>(j)])
                    alone = alone && ncover[static_cast<size_t>(i)] == 1;
                int const oj = static_cast<int>(before.fx.curr2orig.col_map[j]);
                if (!alone)
                    continue;
                count("negative_disjoint_columns");
                if (uniq.count(oj))
                    continue;
                // not fixed: only acceptable if the newly fixed columns made it superfluous
                bool superfluous = true;
                for (int i : in.cols[static_cast<size_t>(oj)]) {
                    bool c = false;
                    for (int k : fixed)
                        c = c || std::find(in.cols[static_cast<size_t>(k)].begin(), in.cols[static_cast<size_t>(k)].end(), i) != in.cols[static_cast<size_t>(k)].end();
                    superfluous = superfluous && c;
                }
                MC_CHECK(superfluous, "column %d of reduced cost %.9g, disjoint from all other negative ones, not fixed%s", oj, rc[j], ws.c_str());
                count("made_superfluous");
            }
            count("steps");
            count_max("max_fixed_in_one_step", s.fx.fixed_cols.size() - nb);
            uint64_t h = in.hash();
            for (int j : fixed)
                h = mix(h, static_cast<uint64_t>(j) + 1);
            state(mix(h, hash_bytes(u0.data(), u0.size() * sizeof(u0[0]))));
        }
    }
    rt().desc = [] { return std::string(); };
}

// ------------------------------------------------------------------------------------------- C13 ----
static void c13_one(Inst const& in, cft::Instance const& inst, RVec const& u, cft::Pricer& pricer, cft::InstAndMap& core) {
    double const         lb = static_cast<double>(pricer(inst, u, core));
    size_t const         n  = in.cols.size();
    std::vector<double>  rc(n);
    double               bound = 0, mag = 1;
    for (auto x : u) {
        bound += static_cast<double>(x);
        mag = std::max(mag, std::fabs(static_cast<double>(x)));
    }
    for (size_t j = 0; j < n; ++j) {
        double r = in.costs[j];
        for (int i : in.cols[j])
            r -= static_cast<double>(u[static_cast<size_t>(i)]);
        rc[j] = r;
        if (r < 0)
            bound += r;
        mag = std::max(mag, in.costs[j]);
    }
    transition();
    validated();
    double const t  = 3e-7 * mag * static_cast<double>(in.nrows + 2);
    double const bt = t * static_cast<double>(n + 2);
    MC_CHECK(std::fabs(lb - bound) <= bt, "bound %.9g, exact Lagrangian bound %.9g", lb, bound);
    size_t const m = core.col_map.size();
    if (core.inst.cols.size() != m || core.inst.costs.size() != m) {
        fail(strf("core of %zu columns, %zu costs, %zu mapped", (size_t)core.inst.cols.size(), core.inst.costs.size(), m));
        return;
    }
    if (core.inst.rows.size() != static_cast<size_t>(in.nrows)) {
        fail(strf("core has %zu rows instead of %d", core.inst.rows.size(), in.nrows));
        return;
    }
    std::vector<char>             have(n, 0);
    std::vector<std::vector<int>> rows(static_cast<size_t>(in.nrows));
    uint64_t                      h = mix(in.hash(), hash_bytes(u.data(), u.size() * sizeof(u[0])));
    for (size_t k = 0; k < m; ++k) {
        auto const j = static_cast<long long>(core.col_map[k]);
        if (j < 0 || j >= static_cast<long long>(n)) {
            fail(strf("core column %zu mapped to %lld", k, j));
            return;
        }
        MC_CHECK(!have[static_cast<size_t>(j)], "column %lld twice in the core", j);
        have[static_cast<size_t>(j)] = 1;
        std::vector<int> c;
        for (auto i : core.inst.cols[static_cast<cft::cidx_t>(k)]) {
            c.push_back(static_cast<int>(i));
            rows[static_cast<size_t>(i)].push_back(static_cast<int>(k));
        }
        MC_CHECK(c == in.cols[static_cast<size_t>(j)], "core column %zu holds %s, column %lld is %s", k, show(c).c_str(), j, show(in.cols[static_cast<size_t>(j)]).c_str());
        MC_CHECK(static_cast<double>(core.inst.costs[k]) == in.costs[static_cast<size_t>(j)], "core column %zu costs %.9g, column %lld costs %.9g", k, (double)core.inst.costs[k], j, in.costs[static_cast<size_t>(j)]);
        h = mix(h, static_cast<uint64_t>(j));
    }
    state(h);
    for (int i = 0; i < in.nrows; ++i) {
        std::vector<int> got;
        for (auto k : core.inst.rows[static_cast<size_t>(i)])
            got.push_back(static_cast<int>(k));
        MC_CHECK(got == rows[static_cast<size_t>(i)], "row %d of the core lists %s, expected %s", i, show(got).c_str(), show(rows[static_cast<size_t>(i)]).c_str());
        // five smallest of the row
        std::vector<double> v, inrow;
        for (size_t j = 0; j < n; ++j)
            if (std::find(in.cols[j].begin(), in.cols[j].end(), i) != in.cols[j].end()) {
                v.push_back(rc[j]);
            }
        std::sort(v.begin(), v.end());
        size_t const want = std::min<size_t>(5, v.size());
        if (want == 0)
            continue;
        double const th  = v[want - 1];
        size_t       cnt = 0;
        for (size_t j = 0; j < n; ++j) {
            if (std::find(in.cols[j].begin(), in.cols[j].end(), i) == in.cols[j].end())
                continue;
            if (rc[j] < th - t)
                MC_CHECK(have[j], "column %zu (reduced cost %.9g) is among the five best of row %d but not in the core", j, rc[j], i);
            cnt += have[j] && rc[j] <= th + t;
        }
        MC_CHECK(cnt >= want, "row %d has %zu of its %zu best columns in the core", i, cnt, want);
        if (v.size() > 5)
            count("rows_with_more_than_five");
    }
    std::vector<double> small;
    for (double r : rc)
        if (r < 0.1 - t)
            small.push_back(r);
    std::sort(small.begin(), small.end());
    size_t const maxc = 5 * static_cast<size_t>(in.nrows);
    if (small.size() <= maxc) {
        for (size_t j = 0; j < n; ++j)
            if (rc[j] < 0.1 - t) {
                size_t border = 0;
                for (double r : rc)
                    border += std::fabs(r - 0.1) <= t;
                if (small.size() + border <= maxc)
                    MC_CHECK(have[j], "column %zu of reduced cost %.9g not in the core", j, rc[j]);
            }
    } else {
        count("more_than_five_per_row");
        double const th  = small[maxc - 1];
        size_t       cnt = 0;
        for (size_t j = 0; j < n; ++j) {
            if (rc[j] < th - t)
                MC_CHECK(have[j], "column %zu of reduced cost %.9g is among the %zu smallest but not in the core", j, rc[j], maxc);
            cnt += have[j] && rc[j] <= th + t;
        }
        MC_CHECK(cnt >= maxc, "%zu of the %zu smallest reduced costs are in the core", cnt, maxc);
    }
}

static void c13(Inst const& in0, std::vector<double> const& alpha, bool scaled) {
    if (!take([&] { return in0.str(); }))
        return;
    Inst const  in   = rounded(in0);
    auto const  inst = to_cft(in);
    auto const  us   = mult_vectors(in, alpha, scaled);
    std::string w;
    rt().desc = [&] { return in0.str() + w; };
    cft::InstAndMap dirty;
    cft::Pricer     dp;
    for (auto const& u : us) {
        w = " | u=";
        if (u.size() <= 40)
            for (auto x : u)
                w += strf("%g ", (double)x);
        cft::Pricer     p;
        cft::InstAndMap core;
        c13_one(in, inst, u, p, core);
        w += "(core object reused)";
        c13_one(in, inst, u, dp, dirty);
    }
    rt().desc = [] { return std::string(); };
}

// R rows, N columns, every assignment of masks to columns (all sequences), a cost pattern.
static void many_cols(int R, int N, std::vector<unsigned> const& masks, std::vector<int> const& pats, std::vector<double> const& scales, InstFn const& f) {
    std::vector<int> d(static_cast<size_t>(N), 0);
    do {
        Inst in;
        in.tag   = "many";
        in.nrows = R;
        for (int x : d)
            in.cols.push_back(mask_rows(masks[static_cast<size_t>(x)]));
        if (in.feasible())
            for (int p : pats)
                for (double sc : scales) {
                    in.costs = cost_pattern(p, in.cols.size(), sc);
                    f(in);
                }
    } while (odo(d, static_cast<int>(masks.size())));
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const                deep = thorough();
    std::vector<double> const a3 = {0, 1, 2.5}, a2 = {1, 3};
#if PROP == 11
    auto f = [&](Inst const& in) { c11(in, 9, 99); };
    all_small(1, 2, a2, true, f, true);
    all_small(2, 3, a2, true, f, true);
    all_small(3, 3, a3, true, f, true);
    all_small(3, 4, {1.25}, false, f, true);
    all_small(4, 4, {1.25}, false, f, true);
    all_small(3, 4, a2, false, f);
    if (deep) {
        all_small(3, 4, {1.25}, true, f, true);
        all_small(4, 5, a2, false, f);
    }
    all_small(4, 4, a2, false, f);
    all_small(5, 4, {1.25}, false, f);
    all_small(3, 5, {1.25}, false, f);
    circulants(5, 5, {3}, {1}, f);
    complete_designs(4, 4, {3}, {1}, f);
    circulants(6, 7, {3}, {1}, [&](Inst const& in) { c11(in, 4, deep ? 4 : 2); });
    graphs(4, {5}, {1}, f);
    complete_designs(5, 6, {3}, {1}, [&](Inst const& in) { c11(in, 3, deep ? 3 : 2); });
    // columns whose rows are not listed in increasing order
    circulants(5, 6, {3}, {1}, [&](Inst const& in) {
        Inst x = in;
        for (auto& c : x.cols)
            std::reverse(c.begin(), c.end());
        c11(x, 3, 2);
    });
#elif PROP == 12
    auto ft = [&](Inst const& in) { c12(in, {0, 0.5, 2}, false, 99); };
    auto fs = [&](Inst const& in) { c12(in, {0, 0.25, 0.75, 2}, true, 99); };
    all_small(1, 3, a3, true, ft);
    all_small(2, 3, a3, true, ft);
    all_small(3, 3, a3, false, ft);
    all_small(3, 4, a2, false, ft);
    all_small(4, 4, {1, 3}, false, [&](Inst const& in) { c12(in, {0, 2}, false, 99); });
    all_small(3, 4, {0, 2, 2.5}, false, ft);
    if (deep) {
        all_small(3, 4, a3, true, ft);
        all_small(4, 4, a2, false, ft);
    }
    circulants(4, deep ? 10 : 8, {0, 2, 3, 5}, {1, 10}, fs);
    graphs(4, {0, 5}, {1, 10}, fs);
    complete_designs(4, 6, {0, 2, 3, 5}, {1, 10}, fs);
    replicated(deep ? std::vector<int>{31, 60, 200, 201, 400, 405, 600, 800} : std::vector<int>{31, 200, 400, 600}, {1}, [&](Inst const& in) { c12(in, {0, 0.4}, true, deep ? 20 : 3); });
#else
    auto ft = [&](Inst const& in) { c13(in, {0, 0.5, 2}, false); };
    auto fs = [&](Inst const& in) { c13(in, {0, 0.25, 0.75, 1.5}, true); };
    all_small(1, 3, a3, true, ft);
    all_small(2, 3, a3, true, ft);
    all_small(3, 3, a3, false, ft);
    all_small(3, 4, a2, false, ft);
    all_small(1, 7, a3, false, [&](Inst const& in) { c13(in, {0, 1, 2, 2.4375, 3}, false); });
    all_small(1, 6, {0, 0.0625, 0.125, 1}, false, [&](Inst const& in) { c13(in, {0, 0.03125, 0.5, 2}, false); });
    many_cols(2, 7, {1, 2, 3}, {0, 2, 3, 5}, {1}, [&](Inst const& in) { c13(in, {0, 0.9375, 1.5, 3}, false); });
    many_cols(2, deep ? 12 : 11, {1, 3}, {0, 3, 5}, {1}, [&](Inst const& in) { c13(in, {0, 0.9375, 1.25, 3}, false); });
    many_cols(3, deep ? 10 : 8, {1, 6, 7}, {2, 5}, {1}, [&](Inst const& in) { c13(in, {0, 0.75, 1.25}, false); });
    many_cols(3, 16, {1, 6}, {3}, {1}, [&](Inst const& in) {
        if (deep || in.cols[0].size() != in.cols[1].size())
            c13(in, {0, 1.5}, false);
    });
    circulants(5, deep ? 12 : 10, {0, 2, 3, 5}, {1}, fs);
    complete_designs(4, 6, {0, 2, 3, 5}, {1, 10}, fs);
    replicated({31, 60, 200}, {1}, [&](Inst const& in) { c13(in, {0, 0.4, 1}, true); });
#endif
    return finish();
}
