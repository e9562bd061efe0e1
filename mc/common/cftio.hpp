// Bridge between mc::Inst and the library under test; result checks shared by the solver harnesses.
#ifndef MC_CFTIO_HPP
#define MC_CFTIO_HPP
#include <cmath>
#include <string>
#include <vector>

#include "core/Instance.hpp"
#include "core/cft.hpp"
#include "inst.hpp"

namespace mc {

inline cft::Instance to_cft(Inst const& in) {
    cft::Instance out;
    for (auto const& c : in.cols) {
        std::vector<cft::ridx_t> v;
        for (int i : c)
            v.push_back(static_cast<cft::ridx_t>(i));
        out.cols.push_back(v);
    }
    for (double c : in.costs)
        out.costs.push_back(static_cast<cft::real_t>(c));
    cft::fill_rows_from_cols(out.cols, static_cast<cft::ridx_t>(in.nrows), out.rows);
    return out;
}

// The instance as the library sees it: costs rounded to real_t.
inline Inst rounded(Inst in) {
    for (double& c : in.costs)
        c = static_cast<double>(static_cast<cft::real_t>(c));
    return in;
}

inline bool same_inst(cft::Instance const& a, cft::Instance const& b) {
    return a.cols.idxs == b.cols.idxs && a.cols.begs == b.cols.begs && a.rows == b.rows && a.costs == b.costs;
}

inline double tol(double scale) {
    return 1e-4 * (1.0 + std::fabs(scale));
}

inline std::string idx_str(std::vector<cft::cidx_t> const& v) {
    std::string s = "[";
    for (auto j : v)
        s += std::to_string(static_cast<long long>(j)) + " ";
    return s + "]";
}

// Empty string if `idxs` is a set of existing columns covering every row.
inline std::string cover_error(Inst const& in, std::vector<cft::cidx_t> const& idxs) {
    std::vector<char> used(in.cols.size(), 0), cov(static_cast<size_t>(in.nrows), 0);
    for (auto j : idxs) {
        long long const jj = static_cast<long long>(j);
        if (jj < 0 || jj >= static_cast<long long>(in.cols.size()))
            return "column index out of range in " + idx_str(idxs);
        if (used[static_cast<size_t>(jj)])
            return "column repeated in " + idx_str(idxs);
        used[static_cast<size_t>(jj)] = 1;
        for (int i : in.cols[static_cast<size_t>(jj)])
            cov[static_cast<size_t>(i)] = 1;
    }
    for (int i = 0; i < in.nrows; ++i)
        if (!cov[static_cast<size_t>(i)])
            return strf("row %d not covered by ", i) + idx_str(idxs);
    return "";
}

inline double cost_of(Inst const& in, std::vector<cft::cidx_t> const& idxs) {
    double s = 0;
    for (auto j : idxs)
        if (static_cast<size_t>(j) < in.cols.size())
            s += in.costs[static_cast<size_t>(j)];
    return s;
}

inline std::string cost_error(Inst const& in, std::vector<cft::cidx_t> const& idxs, double reported) {
    double const c = cost_of(in, idxs);
    double       mag = 1;
    for (double x : in.costs)
        mag = std::max(mag, std::fabs(x));
    // incremental sums in real_t: relative rounding proportional to the magnitude involved
    double const t = 2e-6 * static_cast<double>(in.cols.size() + 4) * mag + 2e-6 * std::fabs(c);
    if (!(std::fabs(c - reported) <= t))
        return strf("reported cost %.9g but the columns cost %.9g, ", reported, c) + idx_str(idxs);
    return "";
}

}  // namespace mc
#endif
