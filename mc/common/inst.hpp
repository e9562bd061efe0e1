// Instances, exhaustive instance families and brute-force oracles. Independent of the code under test.
#ifndef MC_INST_HPP
#define MC_INST_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <limits>
#include <string>
#include <vector>

#include "mc.hpp"

namespace mc {

struct Inst {
    int                           nrows = 0;
    std::vector<std::vector<int>> cols;
    std::vector<double>           costs;
    double                        known_opt = -1.0;  // for block instances (too big for brute force)
    std::string                   tag;

    bool feasible() const {
        std::vector<char> c(static_cast<size_t>(nrows), 0);
        for (auto& col : cols)
            for (int i : col)
                c[static_cast<size_t>(i)] = 1;
        for (char x : c)
            if (!x)
                return false;
        return true;
    }

    std::string str() const {
        std::string s = tag + " rows=" + std::to_string(nrows);
        if (cols.size() > 60)
            return s + " cols=" + std::to_string(cols.size()) + " (large)";
        for (size_t j = 0; j < cols.size(); ++j) {
            s += " {";
            for (size_t k = 0; k < cols[j].size(); ++k)
                s += (k ? "," : "") + std::to_string(cols[j][k]);
            s += strf("}:%.9g", costs[j]);
        }
        return s;
    }

    uint64_t hash() const {
        uint64_t h = mix(17, static_cast<uint64_t>(nrows));
        for (size_t j = 0; j < cols.size(); ++j) {
            for (int i : cols[j])
                h = mix(h, static_cast<uint64_t>(i) + 1);
            h = mix(h, hash_bytes(&costs[j], sizeof(double)));
        }
        return h;
    }

    double sum_costs() const {
        double s = 0;
        for (double c : costs)
            s += c;
        return s;
    }

    // Cheapest cover by dynamic programming over row subsets (nrows <= 20).
    double opt() const {
        if (known_opt >= 0)
            return known_opt;
        size_t              full = (1ULL << nrows) - 1;
        std::vector<double> dp(full + 1, std::numeric_limits<double>::infinity());
        std::vector<size_t> m(cols.size(), 0);
        for (size_t j = 0; j < cols.size(); ++j)
            for (int i : cols[j])
                m[j] |= 1ULL << i;
        dp[0] = 0;
        for (size_t s = 0; s < full; ++s) {
            if (std::isinf(dp[s]))
                continue;
            size_t low = 0;
            while (s >> low & 1)
                ++low;
            for (size_t j = 0; j < cols.size(); ++j)
                if (m[j] >> low & 1)
                    dp[s | m[j]] = std::min(dp[s | m[j]], dp[s] + costs[j]);
        }
        return dp[full];
    }
};

inline std::vector<int> mask_rows(unsigned m) {
    std::vector<int> v;
    for (int i = 0; m >> i; ++i)
        if (m >> i & 1)
            v.push_back(i);
    return v;
}

using InstFn = std::function<void(Inst const&)>;

// All instances with R rows and N columns whose column masks form a non-decreasing sequence
// (ordered=false) or any sequence (ordered=true), with all cost vectors over `alpha`; feasible only.
inline void all_small(int R, int N, std::vector<double> const& alpha, bool ordered, InstFn const& f, bool allow_empty = false) {
    int const        nm = 1 << R, lo = allow_empty ? 0 : 1;
    std::vector<int> masks(static_cast<size_t>(N), lo);
    std::vector<int> cd(static_cast<size_t>(N), 0);
    for (;;) {
        int u = 0;
        for (int m : masks)
            u |= m;
        if (u == nm - 1) {
            Inst in;
            in.tag   = "small";
            in.nrows = R;
            for (int m : masks)
                in.cols.push_back(mask_rows(static_cast<unsigned>(m)));
            in.costs.assign(static_cast<size_t>(N), 0);
            std::fill(cd.begin(), cd.end(), 0);
            do {
                for (int j = 0; j < N; ++j)
                    in.costs[static_cast<size_t>(j)] = alpha[static_cast<size_t>(cd[static_cast<size_t>(j)])];
                f(in);
            } while (odo(cd, static_cast<int>(alpha.size())));
        }
        int k = N - 1;
        while (k >= 0 && masks[static_cast<size_t>(k)] == nm - 1)
            --k;
        if (k < 0)
            return;
        int v = masks[static_cast<size_t>(k)] + 1;
        masks[static_cast<size_t>(k)] = v;
        for (int t = k + 1; t < N; ++t)
            masks[static_cast<size_t>(t)] = ordered ? lo : v;
    }
}

// Cost patterns used with structured families.
inline std::vector<double> cost_pattern(int p, size_t n, double scale) {
    std::vector<double> c(n);
    for (size_t j = 0; j < n; ++j) {
        double v = 1;
        switch (p) {
        case 0: v = 1; break;
        case 1: v = 1 + static_cast<double>(j % 2); break;
        case 2: v = 1 + static_cast<double>(j % 3) * 0.5; break;
        case 3: v = 1 + static_cast<double>(j) / static_cast<double>(n); break;
        case 4: v = j % 4 == 0 ? 0 : 1 + static_cast<double>(j % 5) * 0.3; break;
        default: v = 1 + static_cast<double>((j * 7) % 11) * 0.37; break;
        }
        c[j] = v * scale;
    }
    return c;
}

// Circulant families: n rows, n columns, column j covers j+d (mod n) for d in D, all D containing 0.
inline void circulants(int nlo, int nhi, std::vector<int> const& pats, std::vector<double> const& scales, InstFn const& f) {
    for (int n = nlo; n <= nhi; ++n)
        for (unsigned D = 1; D < (1U << n); D += 2) {
            int k = __builtin_popcount(D);
            if (k < 2 || k > n / 2 + 1)
                continue;
            for (double sc : scales)
                for (int p : pats) {
                    Inst in;
                    in.tag   = strf("circulant n=%d D=%x p=%d sc=%g", n, D, p, sc);
                    in.nrows = n;
                    for (int j = 0; j < n; ++j) {
                        std::vector<int> c;
                        for (int d = 0; d < n; ++d)
                            if (D >> d & 1)
                                c.push_back((j + d) % n);
                        std::sort(c.begin(), c.end());
                        in.cols.push_back(c);
                    }
                    in.costs = cost_pattern(p, in.cols.size(), sc);
                    f(in);
                }
        }
}

// Vertex cover of every graph on n labelled vertices: rows = edges, columns = vertices (those with at
// least one edge), so every row has exactly two columns and odd cycles have an integrality gap.
inline void graphs(int n, std::vector<int> const& pats, std::vector<double> const& scales, InstFn const& f) {
    std::vector<std::pair<int, int>> all;
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
            all.push_back({a, b});
    for (unsigned E = 1; E < (1U << all.size()); ++E)
        for (double sc : scales)
            for (int p : pats) {
                Inst in;
                in.tag = strf("graph n=%d E=%x p=%d sc=%g", n, E, p, sc);
                std::vector<std::vector<int>> cols(static_cast<size_t>(n));
                for (size_t e = 0; e < all.size(); ++e)
                    if (E >> e & 1) {
                        cols[static_cast<size_t>(all[e].first)].push_back(in.nrows);
                        cols[static_cast<size_t>(all[e].second)].push_back(in.nrows);
                        in.nrows++;
                    }
                for (auto& c : cols)
                    if (!c.empty())
                        in.cols.push_back(c);
                in.costs = cost_pattern(p, in.cols.size(), sc);
                f(in);
            }
}

// Edge cover / set systems: rows = elements of {0..n-1}, columns = all subsets of size in [klo,khi].
inline void complete_designs(int nlo, int nhi, std::vector<int> const& pats, std::vector<double> const& scales, InstFn const& f) {
    for (int n = nlo; n <= nhi; ++n)
        for (int k = 2; k <= std::min(n - 1, 4); ++k)
            for (double sc : scales)
                for (int p : pats) {
                    Inst in;
                    in.tag   = strf("design n=%d k=%d p=%d sc=%g", n, k, p, sc);
                    in.nrows = n;
                    for (unsigned m = 1; m < (1U << n); ++m)
                        if (__builtin_popcount(m) == k)
                            in.cols.push_back(mask_rows(m));
                    in.costs = cost_pattern(p, in.cols.size(), sc);
                    f(in);
                }
}

// Instances on which greedy selects `m` "spoke" columns that all become redundant: rows 0..m-1 are
// shared, row m+k is private to spoke k until the last column L (covering all private rows) and the
// base column (covering all shared rows) come in. `arms` private rows per spoke.
inline void stars(int mlo, int mhi, InstFn const& f) {
    std::vector<double> const base_costs  = {1, 8, 11, 20};
    std::vector<double> const spoke_costs = {1, 3, 3.25};
    std::vector<double> const late_costs  = {5, 30, 100};
    for (int m = mlo; m <= mhi; ++m)
        for (int extra = 0; extra < 2; ++extra)
            for (int ramp = 0; ramp < 2; ++ramp)
                for (int order = 0; order < 2; ++order)
                    for (double b : base_costs)
                        for (double s : spoke_costs)
                            for (double l : late_costs) {
                                Inst in;
                                in.tag   = strf("star m=%d extra=%d ramp=%d order=%d", m, extra, ramp, order);
                                in.nrows = 2 * m + extra;
                                std::vector<int> base, late;
                                for (int i = 0; i < m; ++i)
                                    base.push_back(i);
                                for (int i = m; i < in.nrows; ++i)
                                    late.push_back(i);
                                auto add_base = [&] {
                                    in.cols.push_back(base);
                                    in.costs.push_back(b);
                                };
                                auto add_late = [&] {
                                    in.cols.push_back(late);
                                    in.costs.push_back(l);
                                };
                                if (order == 0)
                                    add_base();
                                else
                                    add_late();
                                for (int k = 0; k < m; ++k) {
                                    in.cols.push_back({k, m + k});
                                    in.costs.push_back(s + (ramp ? 0.25 * k : 0));
                                }
                                if (order == 0)
                                    add_late();
                                else
                                    add_base();
                                // optimum: rows beyond 2m need `late`; each shared/private pair
                                // structure has the closed form below (checked by dp when small)
                                double spokes = 0;
                                for (int k = 0; k < m; ++k)
                                    spokes += s + (ramp ? 0.25 * k : 0);
                                double best = b + l;
                                if (extra)
                                    best = std::min(best, spokes + l);
                                else
                                    best = std::min(best, spokes);
                                in.known_opt = best;
                                f(in);
                            }
}

// `copies` disjoint copies of a block, optionally interleaved (row i of copy c is i*copies+c) and
// optionally with `link` expensive columns that span all copies; optimum = copies * block optimum.
inline Inst replicate(Inst const& b, int copies, bool interleave, int links) {
    Inst in;
    in.nrows           = b.nrows * copies;
    in.tag             = strf("%d x [%s]%s links=%d", copies, b.tag.c_str(), interleave ? " interleaved" : "", links);
    double const bopt  = b.opt();
    auto         place = [&](int i, int c) { return interleave ? i * copies + c : c * b.nrows + i; };
    for (int c = 0; c < copies; ++c)
        for (size_t j = 0; j < b.cols.size(); ++j) {
            std::vector<int> col;
            for (int i : b.cols[j])
                col.push_back(place(i, c));
            std::sort(col.begin(), col.end());
            in.cols.push_back(col);
            in.costs.push_back(b.costs[j]);
        }
    for (int l = 0; l < links; ++l) {
        std::vector<int> col;
        for (int i = l; i < in.nrows; i += links + 1)
            col.push_back(i);
        if (col.empty())
            continue;
        in.cols.push_back(col);
        // A cover using this column can replace it by every block column: never cheaper.
        in.costs.push_back(b.sum_costs() * copies + 1);
    }
    in.known_opt = bopt * copies;
    return in;
}

// Blocks with and without an integrality gap, at several cost scales.
inline std::vector<Inst> blocks(std::vector<double> const& scales) {
    std::vector<Inst> out;
    for (double sc : scales) {
        Inst c5;
        c5.tag   = strf("C5 sc=%g", sc);
        c5.nrows = 5;
        for (int j = 0; j < 5; ++j)
            c5.cols.push_back({std::min(j, (j + 1) % 5), std::max(j, (j + 1) % 5)});
        c5.costs = cost_pattern(0, 5, sc);
        out.push_back(c5);
        Inst k4;
        k4.tag   = strf("K4vc sc=%g", sc);
        k4.nrows = 6;
        k4.cols  = {{0, 1, 2}, {0, 3, 4}, {1, 3, 5}, {2, 4, 5}};
        k4.costs = cost_pattern(3, 4, sc);
        out.push_back(k4);
        Inst fano;
        fano.tag   = strf("fano sc=%g", sc);
        fano.nrows = 7;
        fano.cols  = {{0, 1, 2}, {0, 3, 4}, {0, 5, 6}, {1, 3, 5}, {1, 4, 6}, {2, 3, 6}, {2, 4, 5}};
        fano.costs = cost_pattern(2, 7, sc);
        out.push_back(fano);
        Inst many;
        many.tag   = strf("subsets4 sc=%g", sc);
        many.nrows = 4;
        for (unsigned m = 1; m < 16; ++m) {
            many.cols.push_back(mask_rows(m));
            many.costs.push_back(sc * (0.5 + __builtin_popcount(m) + 0.1 * (m % 3)));
        }
        out.push_back(many);
    }
    return out;
}

// Replicated blocks reaching the thresholds that depend on the number of rows
// (30: exit test of the subgradient, 200/400: several columns fixed per step).
inline void replicated(std::vector<int> const& row_targets, std::vector<double> const& scales, InstFn const& f) {
    auto bl = blocks(scales);
    for (int target : row_targets)
        for (auto& b : bl)
            for (int inter = 0; inter < 2; ++inter)
                for (int links = 0; links <= 3; links += 3) {
                    int copies = (target + b.nrows - 1) / b.nrows;
                    f(replicate(b, copies, inter != 0, links));
                }
}

}  // namespace mc
#endif
