// The C++ solver behind a C interface: what the Python solver must agree with.
#include <exception>
#include <string>
#include <vector>

#include "algorithms/Refinement.hpp"
#include "core/parsing.hpp"

extern "C" {
struct Params {
    unsigned long long seed, heur_iters;
    double             time_limit, epsilon, alpha, beta, abs_exit, rel_exit, min_fixing;
};

// begs: ncols+1 offsets into idxs. Returns the number of columns selected, or -1.
int oracle_run(Params const* p, int nrows, int ncols, int const* begs, int const* idxs, double const* costs, int nwarm, int const* warm, double warm_cost,
               int* sel, double* cost, double* lb, double* mults) {
    try {
        cft::Instance inst;
        for (int j = 0; j < ncols; ++j) {
            inst.cols.push_back(std::vector<cft::ridx_t>(idxs + begs[j], idxs + begs[j + 1]));
            inst.costs.push_back(static_cast<cft::real_t>(costs[j]));
        }
        cft::fill_rows_from_cols(inst.cols, static_cast<cft::ridx_t>(nrows), inst.rows);
        cft::Environment env;
        env.verbose          = 0;
        env.seed             = p->seed;
        env.rnd              = cft::prng_t(p->seed);
        env.heur_iters       = p->heur_iters;
        env.time_limit       = p->time_limit;
        env.epsilon          = static_cast<cft::real_t>(p->epsilon);
        env.alpha            = static_cast<cft::real_t>(p->alpha);
        env.beta             = static_cast<cft::real_t>(p->beta);
        env.abs_subgrad_exit = static_cast<cft::real_t>(p->abs_exit);
        env.rel_subgrad_exit = static_cast<cft::real_t>(p->rel_exit);
        env.min_fixing       = static_cast<cft::real_t>(p->min_fixing);
        cft::Solution ws;
        ws.idxs.assign(warm, warm + nwarm);
        ws.cost      = static_cast<cft::real_t>(warm_cost);
        auto const r = cft::run(env, inst, ws);
        for (size_t k = 0; k < r.sol.idxs.size(); ++k)
            sel[k] = r.sol.idxs[k];
        *cost = r.sol.cost;
        *lb   = r.dual.lb;
        for (size_t i = 0; i < r.dual.mults.size() && i < static_cast<size_t>(nrows); ++i)
            mults[i] = r.dual.mults[i];
        return static_cast<int>(r.sol.idxs.size());
    } catch (std::exception const&) { return -1; }
}
}
