// C08 / C09 / C10: the greedy procedure and its redundancy removal on every instance, multiplier
// vector, starting selection, cutoff and size cap of the families below.
#include <set>
#include <unordered_set>

#include "common/cftio.hpp"
#include "greedy/Greedy.hpp"

using namespace mc;

static double const FMAX = static_cast<double>(std::numeric_limits<float>::max());

using Mask = uint64_t;

struct Ctx {
    Inst                in;
    cft::Instance       inst;
    std::vector<Mask>   rows_of;  // rows of each column
    Mask                all_rows;

    explicit Ctx(Inst const& i0)
        : in(rounded(i0))
        , inst(to_cft(in)) {
        all_rows = in.nrows >= 64 ? ~0ULL : (1ULL << in.nrows) - 1;
        for (auto& c : in.cols) {
            Mask m = 0;
            for (int i : c)
                m |= 1ULL << i;
            rows_of.push_back(m);
        }
    }

    Mask cover(std::vector<int> const& s) const {
        Mask m = 0;
        for (int j : s)
            m |= rows_of[static_cast<size_t>(j)];
        return m;
    }

    double cost(std::vector<int> const& s) const {
        double c = 0;
        for (int j : s)
            c += in.costs[static_cast<size_t>(j)];
        return c;
    }

    double eps() const {
        double mag = 1;
        for (double c : in.costs)
            mag = std::max(mag, c);
        return 4e-6 * mag * static_cast<double>(in.cols.size() + 2);
    }
};

static std::vector<int> to_int(std::vector<cft::cidx_t> const& v) {
    std::vector<int> o;
    for (auto j : v)
        o.push_back(static_cast<int>(j));
    return o;
}

static std::string show(std::vector<int> const& v) {
    std::string s = "{";
    for (int j : v)
        s += std::to_string(j) + " ";
    return s + "}";
}

// ---------------------------------------------------------------- reference redundancy removal ----

struct Pruned {
    double best = std::numeric_limits<double>::infinity();  // cheapest reachable result
    double worst = -1;                                      // most expensive one (ties between drops)
};

// Columns of `sel` that can be dropped on their own without losing coverage.
static std::vector<int> redundant_in(Ctx const& c, std::vector<int> const& sel) {
    Mask once = 0, twice = 0;
    for (int j : sel) {
        twice |= once & c.rows_of[static_cast<size_t>(j)];
        once |= c.rows_of[static_cast<size_t>(j)];
    }
    std::vector<int> r;
    for (int j : sel)
        if (!(c.rows_of[static_cast<size_t>(j)] & ~twice))
            r.push_back(j);
    return r;
}

static double cheapest(Ctx const& c, std::vector<int> const& mand, std::vector<int> const& red, Mask need) {
    double best = std::numeric_limits<double>::infinity();
    Mask   mc   = c.cover(mand);
    double mcst = c.cost(mand);
    for (size_t m = 0; m < (1ULL << red.size()); ++m) {
        Mask   cv = mc;
        double cs = mcst;
        for (size_t k = 0; k < red.size(); ++k)
            if (m >> k & 1) {
                cv |= c.rows_of[static_cast<size_t>(red[k])];
                cs += c.in.costs[static_cast<size_t>(red[k])];
            }
        if (cv == need)
            best = std::min(best, cs);
    }
    return best;
}

static void prune_ref(Ctx const& c, std::vector<int> const& sel, Mask need, Pruned& p, std::set<std::vector<int>>& seen) {
    if (!seen.insert(sel).second)
        return;
    auto             red = redundant_in(c, sel);
    std::vector<int> mand;
    for (int j : sel)
        if (std::find(red.begin(), red.end(), j) == red.end())
            mand.push_back(j);
    if (red.size() <= 10 || c.cover(mand) == need) {
        double const v = red.size() <= 10 ? cheapest(c, mand, red, need) : c.cost(mand);
        p.best         = std::min(p.best, v);
        p.worst        = std::max(p.worst, v);
        return;
    }
    double top = -1;
    for (int j : red)
        top = std::max(top, c.in.costs[static_cast<size_t>(j)]);
    for (int j : red)
        if (c.in.costs[static_cast<size_t>(j)] == top) {
            std::vector<int> s2;
            for (int k : sel)
                if (k != j)
                    s2.push_back(k);
            prune_ref(c, s2, need, p, seen);
        }
}

// ------------------------------------------------------------------------------- reference greedy ----

struct GreedyRef {
    Ctx const&                c;
    std::vector<double>       gamma0, u;
    size_t                    cap;
    std::vector<int> const&   out;       // what the code left
    Mask                      out_set = 0, start_set = 0;
    std::unordered_set<Mask>  seen;
    bool                      found    = false;
    bool                      exhausted = false;
    bool                      check_opt = false;
    double                    tolerance = 0;
    size_t                    nodes     = 0;

    GreedyRef(Ctx const& cc, std::vector<int> const& o)
        : c(cc)
        , out(o) {
    }

    void go(Mask sel, size_t n, Mask cov) {
        if (found || exhausted || !seen.insert(sel).second)
            return;
        if (++nodes > 200000) {
            exhausted = true;
            return;
        }
        transition();
        if (cov == c.all_rows || n >= cap) {
            finish_seq(sel, cov);
            return;
        }
        double              best = std::numeric_limits<double>::infinity();
        std::vector<double> sc(c.in.cols.size(), best);
        for (size_t j = 0; j < c.in.cols.size(); ++j) {
            int const mu = __builtin_popcountll(c.rows_of[j] & ~cov);
            if (mu == 0)
                continue;
            double g = gamma0[j];
            for (int i : c.in.cols[j])
                if (cov >> i & 1)
                    g += u[static_cast<size_t>(i)];
            // a gamma of exactly zero scores zero under both formulas
            sc[j] = g > 0 ? g / mu : g * mu;
            best  = std::min(best, sc[j]);
        }
        for (size_t j = 0; j < c.in.cols.size(); ++j)
            if (sc[j] <= best + tolerance)
                go(sel | 1ULL << j, n + 1, cov | c.rows_of[j]);
    }

    void finish_seq(Mask sel, Mask cov) {
        if ((out_set & ~sel) != 0)
            return;
        if (c.cover(out) != cov)
            return;
        if (check_opt) {
            std::vector<int> s;
            for (size_t j = 0; j < c.in.cols.size(); ++j)
                if (sel >> j & 1)
                    s.push_back(static_cast<int>(j));
            Pruned                     p;
            std::set<std::vector<int>> sn;
            prune_ref(c, s, cov, p, sn);
            double const v = c.cost(out);
            if (v < p.best - c.eps() || v > p.worst + c.eps())
                return;
        }
        found = true;
    }
};

// ------------------------------------------------------------------------------------ exploration ----

struct Query {
    std::vector<cft::real_t> u, rc;
    std::vector<int>         start;
    double                   cutoff;
    long                     cap;  // -1: none
};

static std::string qstr(Query const& q) {
    std::string s = " | u=";
    for (auto x : q.u)
        s += strf("%g ", static_cast<double>(x));
    s += "rc=";
    for (auto x : q.rc)
        s += strf("%g ", static_cast<double>(x));
    return s + "start=" + show(q.start) + strf(" cutoff=%.9g cap=%ld", q.cutoff, q.cap);
}

static void contract(Ctx const& c, Query const& q, cft::Greedy& greedy, bool matching) {
    std::vector<cft::cidx_t> sol;
    for (int j : q.start)
        sol.push_back(static_cast<cft::cidx_t>(j));
    double ret;
    if (q.cap < 0)
        ret = static_cast<double>(greedy(c.inst, q.u, q.rc, sol, static_cast<cft::real_t>(q.cutoff)));
    else
        ret = static_cast<double>(greedy(c.inst, q.u, q.rc, sol, static_cast<cft::real_t>(q.cutoff), static_cast<cft::cidx_t>(q.cap)));
    validated();
    auto const out = to_int(sol);
    auto const w   = [&] { return qstr(q) + " -> " + show(out) + strf(" cost %.9g", ret); };

    Mask set = 0;
    for (int j : out) {
        if (j < 0 || static_cast<size_t>(j) >= c.in.cols.size()) {
            fail("column index out of range" + w());
            return;
        }
        if (set >> j & 1) {
            fail("column repeated" + w());
            return;
        }
        set |= 1ULL << j;
    }
    Mask const cov = c.cover(out);
    uint64_t   h   = mix(mix(c.in.hash(), set), hash_bytes(q.u.data(), q.u.size() * sizeof(q.u[0])));
    h              = mix(h, hash_bytes(q.start.data(), q.start.size() * sizeof(int)));
    state(mix(mix(h, hash_bytes(&q.cutoff, sizeof(double))), static_cast<uint64_t>(q.cap + 1)));
    size_t const capn = q.cap < 0 ? ~0ULL : static_cast<size_t>(q.cap);
#if PROP == 8
    transition();
    MC_CHECK(out.size() <= std::max(q.start.size(), capn), "selection grown beyond the cap%s", w().c_str());
    if (ret < q.cutoff) {
        count("solutions_below_cutoff");
        MC_CHECK(std::fabs(c.cost(out) - ret) <= c.eps(), "reported cost %.9g, the selection costs %.9g%s", ret, c.cost(out), w().c_str());
        if (q.cap < 0)
            MC_CHECK(cov == c.all_rows, "selection reported below the cutoff does not cover every row%s", w().c_str());
        bool pos = true;
        for (double x : c.in.costs)
            pos = pos && x > 0;
        if (pos)
            MC_CHECK(redundant_in(c, out).empty(), "redundant column left%s", w().c_str());
    } else
        count("not_below_cutoff");
#else
    if (!matching)
        count("non_matching_reduced_costs");
    GreedyRef g(c, out);
    for (auto x : q.rc)
        g.gamma0.push_back(static_cast<double>(x));
    for (auto x : q.u)
        g.u.push_back(static_cast<double>(x));
    double mag = 1;
    for (double x : g.gamma0)
        mag = std::max(mag, std::fabs(x));
    for (double x : g.u)
        mag = std::max(mag, std::fabs(x));
    g.tolerance = 2e-6 * mag * (c.in.nrows + 1);
    g.cap       = capn;
    g.out_set   = set;
    Mask sset = 0, scov = 0;
    for (int j : q.start) {
        sset |= 1ULL << j;
        scov |= c.rows_of[static_cast<size_t>(j)];
    }
    if (scov == c.all_rows || q.start.size() >= capn)
        return;  // nothing to add
    // the kept columns are optimal only if a result below the cutoff was found
    g.check_opt = ret < q.cutoff;
    g.go(sset, q.start.size(), scov);
    if (g.exhausted)
        fail("oracle: tie exploration not finished" + w());
    else if (!g.found) {
        fail("no sequence of best-scoring columns leads to this selection" + w());
    }
    count_max("max_tie_states", g.nodes);
    if (g.nodes > 1)
        count("oracle_states", g.nodes);
#endif
}

struct Plan {
    std::vector<double> ualpha;     // multiplier alphabet, all vectors if nrows is small enough
    int                 max_starts;  // largest starting selection enumerated
    bool                all_cuts, all_caps, scaled;
};

static std::vector<std::vector<cft::real_t>> mult_vectors(Ctx const& c, Plan const& p) {
    std::vector<std::vector<cft::real_t>> out;
    auto const                            n = static_cast<size_t>(c.in.nrows);
    double                                scale = 1;
    if (p.scaled) {
        scale = 0;
        for (double x : c.in.costs)
            scale = std::max(scale, x);
        scale = scale > 0 ? scale : 1;
    }
    if (n <= 7) {
        std::vector<int> d(n, 0);
        do {
            std::vector<cft::real_t> u;
            for (int x : d)
                u.push_back(static_cast<cft::real_t>(scale * p.ualpha[static_cast<size_t>(x)]));
            out.push_back(u);
        } while (odo(d, static_cast<int>(p.ualpha.size())));
    } else {
        // every vector with one deviating row from each uniform one, plus cyclic patterns
        for (double a : p.ualpha) {
            out.push_back(std::vector<cft::real_t>(n, static_cast<cft::real_t>(scale * a)));
            for (double b : p.ualpha)
                if (b != a)
                    for (size_t i = 0; i < n; ++i) {
                        out.push_back(std::vector<cft::real_t>(n, static_cast<cft::real_t>(scale * a)));
                        out.back()[i] = static_cast<cft::real_t>(scale * b);
                    }
        }
        for (size_t s = 0; s < p.ualpha.size(); ++s) {
            std::vector<cft::real_t> u;
            for (size_t i = 0; i < n; ++i)
                u.push_back(static_cast<cft::real_t>(scale * p.ualpha[(i + s) % p.ualpha.size()]));
            out.push_back(u);
        }
    }
    return out;
}

static std::vector<std::vector<int>> starts(size_t ncols, int maxk) {
    std::vector<std::vector<int>> out = {{}};
    for (int a = 0; a < static_cast<int>(ncols) && maxk >= 1; ++a) {
        out.push_back({a});
        for (int b = 0; b < static_cast<int>(ncols) && maxk >= 2; ++b)
            if (b != a)
                out.push_back({a, b});
    }
    if (maxk >= 3 && ncols <= 5)
        for (unsigned m = 1; m < (1U << ncols); ++m)
            if (__builtin_popcount(m) >= 3)
                out.push_back(mask_rows(m));
    return out;
}

static void explore(Inst const& in, Plan const& p) {
    if (!take([&] { return in.str(); }))
        return;
    Ctx const  c(in);
    auto const us = mult_vectors(c, p);
    auto const ss = starts(c.in.cols.size(), p.max_starts);
    double     total = 0;
    for (double x : c.in.costs)
        total += x;
    std::vector<double> cuts = {FMAX};
    if (p.all_cuts) {
        double const opt = c.in.nrows <= 16 ? in.opt() : total / 2;
        cuts.insert(cuts.end(), {opt, opt * 1.0625 + 0.125, total / 2, 0.0, -1.0});
    }
    for (double& cut : cuts)
        cut = static_cast<double>(static_cast<cft::real_t>(cut));
    std::vector<long> caps = {-1};
    if (p.all_caps)
        caps.insert(caps.end(), {0, 1, 2, 3});
    std::string cur;
    Query       q;
    rt().desc = [&] { return in.str() + qstr(q); };
    for (auto const& u : us) {
        q.u = u;
        for (int match = 1; match >= (PROP == 9 ? 0 : 1); --match) {
            q.rc.clear();
            for (size_t j = 0; j < c.in.cols.size(); ++j) {
                auto r = static_cast<cft::real_t>(c.in.costs[j]);
                if (match)
                    for (int i : c.in.cols[j])
                        r -= u[static_cast<size_t>(i)];
                q.rc.push_back(r);
            }
            for (auto const& s : ss)
                for (double cut : cuts)
                    for (long cap : caps) {
                        q.start  = s;
                        q.cutoff = cut;
                        q.cap    = cap;
                        cft::Greedy greedy;
                        contract(c, q, greedy, match != 0);
                    }
        }
    }
    rt().desc = [] { return std::string(); };
}

// -------------------------------------------------------------------------- C10: redundancy removal ----

static void removal(Inst const& in0) {
    if (!take([&] { return in0.str() + " | all columns selected"; }))
        return;
    Ctx const        base(in0);
    std::vector<int> sel;
    for (size_t j = 0; j < base.in.cols.size(); ++j)
        sel.push_back(static_cast<int>(j));
    Mask const                 need = base.cover(sel);
    Pruned                     p;
    std::set<std::vector<int>> seen;
    prune_ref(base, sel, need, p, seen);
    auto const   red0 = redundant_in(base, sel);
    size_t const nred = red0.size();
    count_max("max_redundant", nred);
    if (nred > 10)
        count("more_than_ten_redundant");
    bool const partial = need != base.all_rows;

    // The selection completed by one column with a private row, so that greedy has something to add
    Inst         ext  = in0;
    double const xc   = 1.5;
    ext.nrows         = in0.nrows + 1;
    ext.cols.push_back({in0.nrows});
    ext.costs.push_back(xc);
    Ctx const ec(ext);

    std::vector<double> cuts = {FMAX, p.best, p.worst + 0.25, p.best - 0.25, (p.best + base.cost(sel)) / 2, 0.0};
    for (double& cut : cuts)
        cut = static_cast<double>(static_cast<cft::real_t>(cut));
    for (double cut : cuts) {
        // (a) the stages called in sequence, as the unit tests do
        {
            cft::RedundancyData      rd;
            std::vector<cft::cidx_t> s;
            for (int j : sel)
                s.push_back(static_cast<cft::cidx_t>(j));
            rd.total_cover.reset(static_cast<cft::ridx_t>(base.in.nrows));
            for (auto j : s)
                rd.total_cover.cover(base.inst.cols[j]);
            cft::complete_init_redund_set(base.inst, s, static_cast<cft::real_t>(cut), rd);
            if (rd.partial_cost < rd.best_cost) {
                MC_CHECK(rd.redund_set.size() == nred, "redundant set has %zu columns, expected %zu", rd.redund_set.size(), nred);
                cft::heuristic_removal(base.inst, rd);
                std::vector<int> kept;
                auto             removed = to_int(rd.cols_to_remove);
                for (int j : sel)
                    if (std::find(removed.begin(), removed.end(), j) == removed.end())
                        kept.push_back(j);
                MC_CHECK(base.cover(kept) == need, "heuristic removal lost coverage, cutoff %.9g, removed %s", cut, show(removed).c_str());
                MC_CHECK(rd.redund_set.size() <= 10 || rd.partial_cost >= rd.best_cost || base.cover(sel) == base.all_rows, "%zu redundant columns left for the enumeration", rd.redund_set.size());
                if (rd.redund_set.size() <= 10 && rd.partial_cost < rd.best_cost) {
                    cft::enumeration_removal(base.inst, rd);
                    if (rd.best_cost < static_cast<cft::real_t>(cut) && nred > 0) {
                        removed = to_int(rd.cols_to_remove);
                        kept.clear();
                        for (int j : sel)
                            if (std::find(removed.begin(), removed.end(), j) == removed.end())
                                kept.push_back(j);
                        MC_CHECK(base.cover(kept) == need, "enumeration lost coverage, cutoff %.9g, removed %s", cut, show(removed).c_str());
                        MC_CHECK(std::fabs(base.cost(kept) - (double)rd.best_cost) <= base.eps(), "cost %.9g reported for %s costing %.9g", (double)rd.best_cost, show(kept).c_str(), base.cost(kept));
                    }
                }
            }
            transition(3);
        }
        // (b) through the greedy procedure
        if (partial)
            continue;
        std::vector<cft::real_t> u(static_cast<size_t>(ext.nrows), 0), rc;
        for (double x : ec.in.costs)
            rc.push_back(static_cast<cft::real_t>(x));
        double const             ecut = cut == FMAX ? FMAX : static_cast<double>(static_cast<cft::real_t>(cut + xc));
        std::vector<cft::cidx_t> s;
        for (int j : sel)
            s.push_back(static_cast<cft::cidx_t>(j));
        cft::Greedy  greedy;
        double const ret = static_cast<double>(greedy(ec.inst, u, rc, s, static_cast<cft::real_t>(ecut)));
        transition();
        validated();
        auto const   out = to_int(s);
        std::string  w   = strf(" (cutoff %.9g, cost reported %.9g, kept %s, cheapest %.9g..%.9g)", ecut, ret, show(out).c_str(), p.best + xc, p.worst + xc);
        std::set<int> dup(out.begin(), out.end());
        MC_CHECK(dup.size() == out.size(), "column repeated%s", w.c_str());
        state(mix(mix(ec.in.hash(), hash_bytes(out.data(), out.size() * sizeof(int))), hash_bytes(&cut, sizeof cut)));
        if (ret < ecut) {
            MC_CHECK(ec.cover(out) == ec.all_rows, "coverage lost%s", w.c_str());
            MC_CHECK(std::fabs(ec.cost(out) - ret) <= ec.eps(), "the kept columns cost %.9g%s", ec.cost(out), w.c_str());
            MC_CHECK(ret >= p.best + xc - ec.eps() && ret <= p.worst + xc + ec.eps(), "not the cost of the prescribed removal%s", w.c_str());
            count("reported");
        } else {
            MC_CHECK(p.worst + xc >= ecut - ec.eps(), "a result below the cutoff exists but none was reported%s", w.c_str());
            count("none_below_cutoff");
        }
    }
}

// Rows = vertices, columns = edges: edge covers of every graph.
static void edge_covers(int n, int min_edges, std::vector<int> const& pats, InstFn const& f) {
    std::vector<std::pair<int, int>> all;
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
            all.push_back({a, b});
    for (unsigned E = 1; E < (1U << all.size()); ++E) {
        if (__builtin_popcount(E) < min_edges)
            continue;
        for (int p : pats) {
            Inst in;
            in.tag   = strf("edgecover n=%d E=%x p=%d", n, E, p);
            in.nrows = n;
            for (size_t e = 0; e < all.size(); ++e)
                if (E >> e & 1)
                    in.cols.push_back({all[e].first, all[e].second});
            in.costs = cost_pattern(p, in.cols.size(), 1);
            if (in.feasible())
                f(in);
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const                deep = thorough();
    std::vector<double> const a3 = {0, 1, 2.5}, a2 = {1, 3}, p3 = {0.5, 1, 3};
#if PROP == 10
    auto f = [&](Inst const& in) { removal(in); };
    all_small(2, 3, a3, true, f);
    all_small(3, 4, {0, 1, 2, 3.5}, false, f);
    all_small(3, 5, deep ? std::vector<double>{0, 1, 2.5} : a2, false, f);
    all_small(4, 4, a2, false, f);
    if (deep) {
        all_small(4, 5, a2, false, f);
        all_small(4, 4, a3, false, f);
        all_small(4, 5, p3, false, f);
    }
    circulants(5, 10, {0, 1, 2, 3, 4, 5}, {1}, f);
    circulants(11, 12, {0, 2, 3, 5}, {1}, f);
    circulants(13, deep ? 17 : 13, {3}, {1}, f);
    edge_covers(5, 3, {0, 1, 2, 3, 4, 5}, f);
    edge_covers(6, deep ? 6 : 11, deep ? std::vector<int>{2, 3, 5} : std::vector<int>{3, 5}, f);
    complete_designs(4, 5, {0, 1, 2, 3, 5}, {1}, f);
    complete_designs(6, 6, {3, 5}, {1}, f);
    stars(2, 22, [&](Inst const& in) {
        if (in.cols.size() <= 60)
            removal(in);
    });
    // partially covering selections: rows no column covers
    all_small(3, 4, a2, false, [&](Inst const& in) {
        Inst x = in;
        x.nrows += 2;
        removal(x);
    });
    circulants(11, 12, {0, 2, 5}, {1}, [&](Inst const& in) {
        Inst x = in;
        x.nrows += 1;
        removal(x);
    });
#else
    std::vector<double> const u3 = {0, 0.5, 2}, u2 = {0, 1.5}, u4 = {0, 0.25, 1, 3};
    bool const                all = PROP == 8;
    Plan const                tiny = {deep ? u4 : u3, 3, all, true, false};
    Plan const                mid  = {u3, 2, all, all, false};
    Plan const                wide = {{0, 0.25, 1}, 2, all, all, true};
    Plan const                lite = {u3, 1, all, all && deep, true};
    auto                      ft = [&](Inst const& in) { explore(in, tiny); };
    auto                      fm = [&](Inst const& in) { explore(in, mid); };
    auto                      fw = [&](Inst const& in) { explore(in, wide); };
    auto                      fl = [&](Inst const& in) { explore(in, lite); };
    all_small(1, 3, a3, true, fm);
    all_small(2, 3, a3, true, deep ? InstFn(ft) : InstFn(fm));
    all_small(3, 3, a2, false, ft);
    all_small(3, 3, a3, false, fm);
    all_small(3, 4, a2, false, deep ? InstFn(fm) : InstFn(fl));
    if (deep) {
        all_small(3, 3, a3, false, ft);
        all_small(3, 4, a2, false, ft);
        all_small(4, 4, a2, false, fl);
    }
    circulants(4, deep ? 6 : 5, {0, 2, 3, 5}, {1}, fm);
    circulants(6, deep ? 16 : 11, {0, 2, 3, 5}, {1}, deep ? InstFn(fw) : InstFn(fl));
    complete_designs(4, deep ? 6 : 5, {0, 2, 3, 5}, {1}, fm);
    complete_designs(6, 6, {0, 2, 5}, {1}, fl);
    graphs(4, {0, 2, 5}, {1}, deep ? InstFn(fm) : InstFn(fl));
    for (auto const& b : blocks({1, 10}))
        for (int copies = 1; copies <= 3; ++copies)
            fw(replicate(b, copies, true, 3));
    Plan const st = {{0, 1}, 0, all, all && deep, true};
    stars(2, deep ? 24 : 13, [&](Inst const& in) {
        if (in.cols.size() <= 60 && in.nrows <= 60 && (deep || in.nrows >= 20 || in.nrows <= 6))
            explore(in, st);
    });
#endif
    return finish();
}
