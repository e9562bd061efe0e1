// C30: the whole solver under other index and real types (chosen with -DCFT_CIDX_TYPE=... etc.).
#ifdef TAGGED
#include "common/tagged.hpp"
#define CFT_CIDX_TYPE ext::TaggedScalar<int32_t, struct COL>
#define CFT_RIDX_TYPE ext::TaggedScalar<int16_t, struct ROW>
#define CFT_REAL_TYPE ext::TaggedScalar<float, struct REAL>
#include "utils/custom_types.hpp"
namespace cft {
template <typename T, typename TAG>
struct native<ext::TaggedScalar<T, TAG>> {
    using type = T;
};
}  // namespace cft
#endif
#include "common/filegen.hpp"
#include "common/vclock.hpp"

#include "algorithms/Refinement.hpp"
#include "core/parsing.hpp"

using namespace mc;
using C = cft::native_t<cft::cidx_t>;
using R = cft::native_t<cft::ridx_t>;
using F = cft::native_t<cft::real_t>;

static unsigned long long const max_c = std::numeric_limits<C>::max();  // number of columns and of rows
static unsigned long long const max_r = std::numeric_limits<R>::max();  // that the index types can count

static cft::real_t real(double x) {
    return cft::real_t(static_cast<F>(x));
}

static cft::Instance convert(Inst const& in) {
    cft::Instance out;
    for (auto const& c : in.cols) {
        std::vector<cft::ridx_t> v;
        for (int i : c)
            v.push_back(cft::ridx_t(static_cast<R>(i)));
        out.cols.push_back(v);
    }
    for (double c : in.costs)
        out.costs.push_back(real(c));
    cft::fill_rows_from_cols(out.cols, cft::ridx_t(static_cast<R>(in.nrows)), out.rows);
    return out;
}

struct Cfg {
    double   eps;
    uint64_t heur;
    double   minfix;
    int      warm;
};

// The result must be right for the instance with costs rounded to the real type.
static void check(Inst in, cft::Solution const& sol, cft::DualState const* dual, double opt, char const* who) {
    for (double& c : in.costs)
        c = static_cast<double>(static_cast<F>(c));
    std::vector<char> used(in.cols.size(), 0), cov(static_cast<size_t>(in.nrows), 0);
    long double       cost = 0, mag = 1;
    for (auto jj : sol.idxs) {
        C const j = static_cast<C>(jj);
        if (j < C(0) || static_cast<unsigned long long>(j) >= in.cols.size())
            return fail(strf("%s: column index out of range", who));
        if (used[static_cast<size_t>(j)])
            return fail(strf("%s: column %lld is repeated", who, (long long)j));
        used[static_cast<size_t>(j)] = 1;
        cost += in.costs[static_cast<size_t>(j)];
        for (int i : in.cols[static_cast<size_t>(j)])
            cov[static_cast<size_t>(i)] = 1;
    }
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)])
            return fail(strf("%s: row %d of %d is not covered by the %zu columns returned", who, i, in.nrows, sol.idxs.size()));
    for (double c : in.costs)
        mag = std::max<long double>(mag, std::fabs(c));
    long double const rel = 20 * static_cast<long double>(std::numeric_limits<F>::epsilon()) * static_cast<long double>(sol.idxs.size() + 8);
    long double const got = static_cast<F>(sol.cost);
    MC_CHECK(std::fabs(got - cost) <= rel * (mag + std::fabs(cost)) * 4, "%s: reported cost %.12Lg, the columns cost %.12Lg", who, got, cost);
    if (dual) {
        double const lb = static_cast<double>(static_cast<F>(dual->lb));
        MC_CHECK(lb <= opt + 1e-4 * (1 + std::fabs(opt)), "%s: lower bound %.9g above the optimum %.9g", who, lb, opt);
        MC_CHECK(dual->mults.size() == static_cast<size_t>(in.nrows), "%s: %zu multipliers for %d rows", who, dual->mults.size(), in.nrows);
        for (auto const& u : dual->mults)
            MC_CHECK(std::isfinite(static_cast<F>(u)) && static_cast<F>(u) >= F(0), "%s: multiplier %.9g", who, static_cast<double>(static_cast<F>(u)));
    }
}

// The instance survives each file format with these types.
static void files(Inst const& in, cft::Instance const& ref, cft::Solution const& sol) {
    static MemFile f;
    for (char const* fmt : {CFT_RAIL_PARSER, CFT_SCP_PARSER, CFT_CVRP_PARSER, CFT_MPS_PARSER}) {
        std::string const n = fmt;
        if (n == CFT_SCP_PARSER && in.cols.size() * static_cast<size_t>(in.nrows) > 300000)
            continue;
        MpsLayout m;
        for (int i = 0; i < in.nrows; ++i)
            m.row_order.push_back(i);
        f.set(n == CFT_RAIL_PARSER ? to_rail(in, Layout()) : n == CFT_SCP_PARSER ? to_scp(in, Layout()) : n == CFT_CVRP_PARSER ? to_cvrp(in, Layout(), {}) : to_mps(in, m));
        cft::Environment env;
        env.verbose   = 0;
        env.parser    = fmt;
        env.inst_path = f.path;
        try {
            auto const got = cft::parse_inst_and_initsol(env).inst;
            bool       ok  = got.rows.size() == ref.rows.size() && got.costs.size() == ref.costs.size() && got.cols.begs == ref.cols.begs && got.cols.idxs.size() == ref.cols.idxs.size();
            for (size_t k = 0; ok && k < ref.cols.idxs.size(); ++k)
                ok = got.cols.idxs[k] == ref.cols.idxs[k];
            for (size_t i = 0; ok && i < ref.rows.size(); ++i) {
                ok = got.rows[i].size() == ref.rows[i].size();
                for (size_t k = 0; ok && k < ref.rows[i].size(); ++k)
                    ok = got.rows[i][k] == ref.rows[i][k];
            }
            for (size_t j = 0; ok && j < ref.costs.size(); ++j)
                ok = std::fabs(static_cast<double>(static_cast<F>(got.costs[j])) - in.costs[j]) <= 1e-6 * in.costs[j];
            MC_CHECK(ok, "%s file of %d rows and %zu columns is read as another instance", fmt, in.nrows, in.cols.size());
        } catch (std::exception const& e) { fail(strf("%s file of %d rows and %zu columns is rejected: %s", fmt, in.nrows, in.cols.size(), e.what())); }
        transition();
    }
    cft::write_solution(f.path, sol);
    auto const back = cft::parse_solution(f.path);
    bool       ok   = back.idxs.size() == sol.idxs.size() && static_cast<F>(back.cost) == static_cast<F>(sol.cost);
    for (size_t k = 0; ok && k < sol.idxs.size(); ++k)
        ok = back.idxs[k] == sol.idxs[k];
    MC_CHECK(ok, "the solution does not survive writing and reading");
    transition();
}

static void execute(Inst const& in, Cfg const& c) {
    vclock().reset();
    auto inst = convert(in);
    {
        // both views of the instance, as the types count them
        size_t nz = 0;
        for (auto const& r : inst.rows)
            nz += r.size();
        MC_CHECK(inst.rows.size() == static_cast<size_t>(in.nrows) && cft::size(inst.cols) == in.cols.size() && nz == inst.cols.idxs.size(), "instance views: %zu rows, %zu entries", inst.rows.size(), nz);
    }
    cft::Environment env;
    env.verbose    = 0;
    env.epsilon    = real(c.eps);
    env.heur_iters = c.heur;
    env.min_fixing = real(c.minfix);
    double const opt = in.opt();
    auto const   res = cft::run(env, inst);
    check(in, res.sol, &res.dual, opt, "run");
    if (c.warm)
        files(in, inst, res.sol);
    if (c.warm) {
        cft::Solution all;
        all.cost = real(0);
        for (size_t j = 0; j < in.cols.size(); ++j) {
            all.idxs.push_back(cft::cidx_t(static_cast<C>(j)));
            all.cost = cft::real_t(static_cast<F>(static_cast<F>(all.cost) + static_cast<F>(in.costs[j])));
        }
        env.rnd         = cft::prng_t(1);
        auto const res2 = cft::run(env, inst, all);
        check(in, res2.sol, &res2.dual, opt, "warm-started run");
        transition();
    }
    transition();
    validated();
    uint64_t h = in.hash();
    for (auto j : res.sol.idxs)
        h = mix(h, static_cast<uint64_t>(static_cast<C>(j)));
    state(h);
}

static void explore(std::vector<Cfg> const& cs, std::function<void(InstFn const&)> gen) {
    gen([&](Inst const& in) {
        if (in.cols.size() > max_c || static_cast<unsigned long long>(in.nrows) > max_r)
            return;
        for (auto const& c : cs)
            if (take([&] { return in.str() + strf(" | eps=%g heur=%llu minfix=%g", c.eps, (unsigned long long)c.heur, c.minfix); })) {
                if (rt().only >= 0)
                    fprintf(stderr, "%s\n", in.tag.c_str());
                try {
                    execute(in, c);
                } catch (std::exception const& e) {
                    // Builds with assertions on are here for the conversion checks; the other
                    // assertions compare rounded costs exactly and are not part of this property.
                    if (std::string(e.what()).find("Assertion failed") != std::string::npos && std::string(e.what()).find("utility.hpp") == std::string::npos)
                        count("other_assertions");
                    else
                        fail(std::string("exception: ") + e.what());
                }
            }
    });
}

// Instances whose numbers of rows and columns are the largest the types can count (or `cap`).
static void at_limits(int rcap, int ccap, InstFn const& f) {
    int const nr = static_cast<int>(std::min<unsigned long long>(max_r, static_cast<unsigned long long>(rcap)));
    int const nc = static_cast<int>(std::min<unsigned long long>(max_c, static_cast<unsigned long long>(ccap)));
    for (int dr = 0; dr < 2; ++dr)
        for (int dc = 0; dc < 2; ++dc)
            for (int shape = 0; shape < 6; ++shape) {
                Inst in;
                in.nrows   = nr - dr;
                int cols   = nc - dc;
                in.tag     = strf("limit rows=%d cols=%d shape=%d", in.nrows, cols, shape);
                // shape 0: singletons and one column with all rows; 1: long intervals (many entries);
                // 2: few rows, all columns; 3: all columns equal; 4: one row; 5: one column
                int rows = in.nrows;
                if (shape == 2)
                    in.nrows = rows = std::min(rows, 7);
                if (shape == 4)
                    in.nrows = rows = 1;
                if (shape == 5)
                    cols = 1;
                std::vector<int> all;
                for (int i = 0; i < rows; ++i)
                    all.push_back(i);
                if (shape == 0) {
                    if (cols < 2)
                        continue;
                    in.cols.push_back(all);
                    in.costs.push_back(rows * 0.75);
                    for (int j = 0; j + 1 < cols; ++j) {
                        in.cols.push_back({j % rows});
                        in.costs.push_back(1 + j / rows);
                    }
                    // singletons suffice for all rows only if there are enough of them
                    in.known_opt = rows * 0.75;
                } else if (shape == 1) {
                    // the intervals [j, j+len) cyclically; costs 1 and one full column
                    int const len = std::max(1, rows / 2);
                    if (static_cast<long long>(len) * cols > 3000000)
                        continue;
                    for (int j = 0; j < cols; ++j) {
                        std::vector<int> c;
                        for (int k = 0; k < len; ++k)
                            c.push_back(static_cast<int>((static_cast<long long>(j) * 7 + k) % rows));
                        std::sort(c.begin(), c.end());
                        in.cols.push_back(c);
                        in.costs.push_back(1);
                    }
                    in.cols[0] = all;
                    in.costs[0] = 1.5;
                    in.known_opt = rows == 1 ? 1 : 1.5;  // no interval alone covers everything
                    if (len >= rows)
                        in.known_opt = cols > 1 ? 1 : 1.5;
                } else if (shape == 2) {
                    for (int j = 0; j < cols; ++j) {
                        unsigned const m = static_cast<unsigned>(j * 37 + 11) % ((1u << rows) - 1) + 1;
                        in.cols.push_back(mask_rows(m));
                        in.costs.push_back(1 + __builtin_popcount(m) * 0.5 + (j % 5) * 0.25);
                    }
                    if (!in.feasible())
                        in.cols[0] = all;
                } else {
                    for (int j = 0; j < cols; ++j) {
                        in.cols.push_back(all);
                        in.costs.push_back(2 + (j * 13 + 5) % cols * 0.5);
                    }
                    in.known_opt = *std::min_element(in.costs.begin(), in.costs.end());
                    if (static_cast<long long>(rows) * cols > 3000000)
                        continue;
                }
                f(in);
            }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const             deep = thorough();
    std::vector<Cfg> const two  = {{0.999, 100, 0.3, 1}, {0.01, 10, 0.3, 0}};
    std::vector<Cfg> const one  = {{0.01, 5, 0.3, 0}};
    explore(two, [&](InstFn const& f) {
        at_limits(deep ? 4000 : 300, deep ? 70000 : 1000, f);
        all_small(2, 3, {0, 1, 2.5}, true, f);
        all_small(3, 3, {1, 2.5}, deep, f);
        circulants(3, deep ? 9 : 7, {0, 2, 5}, {1, 10}, f);
        complete_designs(4, deep ? 7 : 6, {0, 3, 5}, {1, 10}, f);
        stars(10, 11, f);
        replicated({31, 60, 120}, {1}, f);
    });
    explore(one, [&](InstFn const& f) {
        if (max_r > 40000)
            at_limits(deep ? 70000 : 33000, 300, f);
        else if (max_r > 1000)
            at_limits(40000, 300, f);
        if (max_c > 1000)
            at_limits(20, 70000, f);
        if (deep) {
            all_small(3, 4, {0, 1, 2.5}, false, f);
            graphs(5, {0, 5}, {1, 10}, f);
        }
    });
    return finish();
}
