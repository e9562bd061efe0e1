// C27: unit-cost mode is the same instance with all costs one, and the run is the run on that instance.
#include <stdexcept>

#include "algorithms/Refinement.hpp"
#include "cftio.hpp"
#include "core/parsing.hpp"
#include "filegen.hpp"

using namespace mc;

static MemFile *gfile, *gsol;
static char const* const fmt_name[4] = {"RAIL", "SCP", "CVRP", "MPS"};

static std::string text(int f, Inst const& in, std::vector<int> const& sol) {
    Layout    l;
    MpsLayout m;
    for (int i = 0; i < in.nrows; ++i)
        m.row_order.push_back(i);
    return f == 0 ? to_rail(in, l) : f == 1 ? to_scp(in, l) : f == 2 ? to_cvrp(in, l, sol) : to_mps(in, m);
}

static void one(Inst const& in, int f, std::vector<int> const& sol, bool file_sol, bool do_run) {
    gfile->set(text(f, in, sol));
    if (file_sol) {
        std::string s;
        double      c = 0;
        for (int j : sol)
            c += in.costs[static_cast<size_t>(j)];
        s = num(c, 0);
        for (int j : sol)
            s += " " + std::to_string(j);
        gsol->set(s);
    }
    transition();
    try {
        cft::Environment env;
        env.verbose   = 0;
        env.parser    = fmt_name[f];
        env.inst_path = gfile->path;
        if (file_sol)
            env.initsol_path = gsol->path;
        auto plain         = cft::parse_inst_and_initsol(env);
        env.use_unit_costs = true;
        auto unit          = cft::parse_inst_and_initsol(env);
        MC_CHECK(unit.inst.cols.idxs == plain.inst.cols.idxs && unit.inst.cols.begs == plain.inst.cols.begs && unit.inst.rows == plain.inst.rows,
                 "%s: rows or columns differ with unit costs", fmt_name[f]);
        MC_CHECK(unit.inst.costs.size() == plain.inst.costs.size(), "%s: %zu unit costs for %zu columns", fmt_name[f], unit.inst.costs.size(), plain.inst.costs.size());
        for (auto c : unit.inst.costs)
            MC_CHECK(c == static_cast<cft::real_t>(1), "%s: a unit cost is %g", fmt_name[f], static_cast<double>(c));
        for (size_t j = 0; j < in.costs.size() && j < plain.inst.costs.size(); ++j)
            MC_CHECK(plain.inst.costs[j] == static_cast<cft::real_t>(in.costs[j]), "%s: without unit costs column %zu costs %g, not %g", fmt_name[f], j, static_cast<double>(plain.inst.costs[j]), in.costs[j]);
        bool const has = file_sol || f == 2;
        MC_CHECK(unit.init_sol.idxs == plain.init_sol.idxs, "%s: other starting solution with unit costs", fmt_name[f]);
        if (has && !sol.empty()) {
            MC_CHECK(unit.init_sol.idxs.size() == sol.size() && unit.init_sol.cost == static_cast<cft::real_t>(sol.size()), "%s: starting solution of %zu columns has unit cost %g", fmt_name[f], sol.size(), static_cast<double>(unit.init_sol.cost));
            double c = 0;
            for (int j : sol)
                c += in.costs[static_cast<size_t>(j)];
            MC_CHECK(std::fabs(static_cast<double>(plain.init_sol.cost) - c) < 1e-4 * (1 + c), "%s: starting solution costs %g, not %g", fmt_name[f], static_cast<double>(plain.init_sol.cost), c);
        } else
            MC_CHECK(unit.init_sol.idxs.empty() && unit.init_sol.cost == 0, "%s: a starting solution out of nothing", fmt_name[f]);
        state(hash_bytes(unit.inst.cols.idxs.data(), unit.inst.cols.idxs.size() * sizeof(cft::ridx_t), mix(unit.inst.rows.size(), unit.inst.costs.size())));
        validated();
        if (do_run) {
            Inst ui = in;
            for (double& c : ui.costs)
                c = 1;
            auto             uinst = to_cft(ui);
            // the row order inside a column may depend on the format: take the columns as read
            uinst.cols = plain.inst.cols;
            cft::fill_rows_from_cols(uinst.cols, static_cast<cft::ridx_t>(in.nrows), uinst.rows);
            cft::Solution start = {};
            if (has)
                for (int j : sol)
                    start.idxs.push_back(static_cast<cft::cidx_t>(j));
            start.cost = static_cast<cft::real_t>(start.idxs.size());
            cft::Environment e2;
            e2.verbose = 0;
            auto r1    = cft::run(env, unit.inst, unit.init_sol);
            auto r2    = cft::run(e2, uinst, start);
            transition(2);
            MC_CHECK(r1.sol.idxs == r2.sol.idxs && r1.sol.cost == r2.sol.cost && r1.dual.mults == r2.dual.mults && r1.dual.lb == r2.dual.lb,
                     "%s: the unit-cost run differs from the run on the unit-cost instance", fmt_name[f]);
            MC_CHECK(std::fabs(static_cast<double>(r1.sol.cost) - static_cast<double>(r1.sol.idxs.size())) < 1e-3, "%s: %zu columns reported with unit cost %g", fmt_name[f], r1.sol.idxs.size(), static_cast<double>(r1.sol.cost));
            auto ce = cover_error(ui, r1.sol.idxs);
            MC_CHECK(ce.empty(), "%s: %s", fmt_name[f], ce.c_str());
            for (auto j : r1.sol.idxs)
                state(mix(static_cast<uint64_t>(j), hash_bytes(uinst.cols.idxs.data(), uinst.cols.idxs.size() * sizeof(cft::ridx_t))));
            validated();
        }
    } catch (std::exception const& ex) {
        fail(strf("%s: rejected: %s", fmt_name[f], ex.what()));
    }
}

static std::vector<std::vector<int>> covers(Inst const& in) {
    std::vector<std::vector<int>> out;
    int const                     n = static_cast<int>(in.cols.size());
    for (unsigned m = 1; m < (1u << std::min(n, 10)); ++m) {
        std::vector<int>  v;
        std::vector<char> c(static_cast<size_t>(in.nrows), 0);
        for (int j = 0; j < n; ++j)
            if (m >> j & 1u) {
                v.push_back(j);
                for (int i : in.cols[static_cast<size_t>(j)])
                    c[static_cast<size_t>(i)] = 1;
            }
        bool ok = true;
        for (char x : c)
            ok = ok && x;
        if (ok)
            out.push_back(v);
    }
    return out;
}

int main(int argc, char** argv) {
    init(argc, argv);
    MemFile a, b;
    gfile = &a;
    gsol  = &b;
    bool const th = thorough();
    auto       go = [&](Inst const& in) {
        for (int f = 0; f < 4; ++f) {
            if (!take([=] { return std::string(fmt_name[f]) + " " + in.str(); }))
                continue;
            one(in, f, {}, false, true);
            bool first = true;
            for (auto const& s : covers(in)) {
                one(in, f, s, f != 2, first || th);
                if (f == 2)
                    one(in, f, s, true, false);
                first = false;
            }
        }
    };
    std::vector<double> al = {0, 2.5, 7};
    all_small(1, 2, al, true, go);
    all_small(2, 2, al, true, go);
    all_small(2, 3, {0.5, 3}, true, go);
    all_small(3, 3, th ? al : std::vector<double>{1, 4.5}, false, go);
    if (th)
        all_small(3, 4, {1, 4.5}, false, go);
    circulants(4, th ? 9 : 7, {1, 2, 4}, {1, 12}, go);
    return finish();
}
