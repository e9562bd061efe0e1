// C15: every ordered history of calls of length <= 3 (4) on one object; after each call the result
// must be exactly that of a fresh object.
#include "algorithms/ThreePhase.hpp"
#include "common/cftio.hpp"
#include "fixing/ColFixing.hpp"
#include "greedy/Greedy.hpp"
#include "subgradient/Pricer.hpp"
#include "subgradient/Subgradient.hpp"

using namespace mc;
using RVec = std::vector<cft::real_t>;

// One call: an instance and the arguments.
struct Call {
    std::string   name;
    Inst          in;
    cft::Instance inst;
    RVec          u;
    int           variant;  // component specific (cutoff, cap, limits)
};

using Bytes = std::vector<unsigned char>;

struct Rec {
    Bytes b;

    template <typename T>
    void put(T const& v) {
        auto const* p = reinterpret_cast<unsigned char const*>(&v);
        b.insert(b.end(), p, p + sizeof v);
    }

    template <typename T>
    void vec(std::vector<T> const& v) {
        put(v.size());
        for (auto const& x : v)
            put(x);
    }

    void inst(cft::Instance const& i) {
        vec(i.cols.idxs);
        vec(i.cols.begs);
        put(i.rows.size());
        for (auto const& r : i.rows)
            vec(r);
        vec(i.costs);
    }

    void core(cft::InstAndMap const& c) {
        inst(c.inst);
        vec(c.col_map);
    }
};

static RVec rcosts(Call const& c) {
    RVec rc;
    for (size_t j = 0; j < c.inst.costs.size(); ++j) {
        cft::real_t r = c.inst.costs[j];
        for (auto i : c.inst.cols[static_cast<cft::cidx_t>(j)])
            r -= c.u[static_cast<size_t>(i)];
        rc.push_back(r);
    }
    return rc;
}

struct GreedyObj {
    cft::Greedy g;

    static int variants() {
        return 4;
    }

    Bytes call(Call const& c) {
        Rec                      r;
        std::vector<cft::cidx_t> sol;
        auto const               rc = rcosts(c);
        cft::real_t              v  = 0;
        switch (c.variant) {
        case 0: v = g(c.inst, c.u, rc, sol); break;
        case 1: v = g(c.inst, c.u, rc, sol, 0.5f); break;  // gives up
        case 2: sol.push_back(0); v = g(c.inst, c.u, rc, sol, 1e30f, 2); break;
        default:
            for (size_t j = 0; j < c.in.cols.size(); ++j)  // already complete
                sol.push_back(static_cast<cft::cidx_t>(j));
            v = g(c.inst, c.u, rc, sol);
        }
        r.put(v);
        r.vec(sol);
        return r.b;
    }
};

struct PricerObj {
    cft::Pricer     p;
    cft::InstAndMap core;

    static int variants() {
        return 2;
    }

    Bytes call(Call const& c) {
        Rec  r;
        RVec u = c.u;
        if (c.variant)
            for (auto& x : u)
                x *= 3;
        r.put(p(c.inst, u, core));
        r.core(core);
        return r.b;
    }
};

struct SubgradObj {
    cft::Subgradient s;
    cft::Greedy      g;
    cft::Pricer      p;

    static int variants() {
        return 4;
    }

    Bytes call(Call const& c) {
        Rec              r;
        cft::Environment env;
        env.verbose    = 0;
        env.heur_iters = c.variant == 1 ? 1 : 7;
        if (c.variant == 2)
            env.time_limit = -1;  // ends early
        cft::InstAndMap core;
        cft::Pricer     fresh;
        fresh(c.inst, c.u, core);
        RVec         u    = c.u;
        cft::real_t  step = 0.1f;
        double const sum  = c.in.sum_costs();
        cft::real_t  cut  = static_cast<cft::real_t>(c.variant == 3 ? sum * 0.3 : sum + 1);
        if (c.variant != 1)
            r.put(s(env, c.inst, cut, p, core, step, u));
        r.core(core);
        r.put(step);
        r.vec(u);
        cft::Solution best;
        best.cost = cut;
        s.heuristic(env, core.inst, step, g, best, u);
        r.put(best.cost);
        r.vec(best.idxs);
        r.vec(u);
        return r.b;
    }
};

struct FixingObj {
    cft::ColFixing f;
    cft::Greedy    g;

    static int variants() {
        return 2;
    }

    Bytes call(Call const& c) {
        Rec              r;
        cft::Environment env;
        env.verbose = 0;
        auto            inst = c.inst;
        cft::FixingData fx;
        cft::make_identity_fixing_data(static_cast<cft::cidx_t>(inst.cols.size()), static_cast<cft::ridx_t>(inst.rows.size()), fx);
        RVec u = c.u;
        for (int k = 0; k < (c.variant ? 9 : 1) && !inst.rows.empty(); ++k) {
            f(env, static_cast<cft::ridx_t>(c.variant ? 600 : c.in.nrows), inst, fx, u, g);
            r.inst(inst);
            r.vec(u);
            r.vec(fx.fixed_cols);
            r.put(fx.fixed_cost);
            r.vec(fx.curr2orig.col_map);
            r.vec(fx.curr2orig.row_map);
        }
        return r.b;
    }
};

struct ThreePhaseObj {
    cft::ThreePhase t;

    static int variants() {
        return 3;
    }

    Bytes call(Call const& c) {
        Rec              r;
        cft::Environment env;
        env.verbose    = 0;
        env.heur_iters = 5;
        env.epsilon    = c.variant == 2 ? 1.5f : 0.01f;
        if (c.variant == 1)
            env.time_limit = -1;  // ends early
        auto inst = c.inst;
        auto res  = t(env, inst);
        r.put(res.sol.cost);
        r.vec(res.sol.idxs);
        r.put(res.dual.lb);
        r.vec(res.dual.mults);
        return r.b;
    }
};

static std::vector<Call> make_calls(std::vector<Inst> const& insts, int variants) {
    std::vector<Call> out;
    for (auto const& in : insts)
        for (int v = 0; v < variants; ++v) {
            Call c;
            c.in      = rounded(in);
            c.inst    = to_cft(c.in);
            c.variant = v;
            c.name    = in.tag + strf("/%d", v);
            double mx = 0;
            for (double x : c.in.costs)
                mx = std::max(mx, x);
            for (int i = 0; i < in.nrows; ++i)
                c.u.push_back(static_cast<cft::real_t>(mx * (0.1 + 0.2 * ((i * 3) % 4))));
            out.push_back(c);
        }
    return out;
}

template <typename Obj>
static void histories(char const* what, std::vector<Inst> const& insts, int depth) {
    auto const         calls = make_calls(insts, Obj::variants());
    int const          n     = static_cast<int>(calls.size());
    std::vector<Bytes> fresh;
    std::vector<char>  have(calls.size(), 0);
    fresh.resize(calls.size());
    std::vector<int> d;
    for (int len = 2; len <= depth; ++len) {
        d.assign(static_cast<size_t>(len), 0);
        do {
            // shorter histories are prefixes of longer ones: only the deepest level is needed
            if (len < depth)
                break;
            auto show = [&] {
                std::string s = std::string(what) + ":";
                for (int k : d)
                    s += " " + calls[static_cast<size_t>(k)].name;
                return s;
            };
            if (!take(show))
                continue;
            Obj      o;
            uint64_t h = hash_bytes(what, strlen(what));
            for (size_t k = 0; k < d.size(); ++k) {
                auto const ci  = static_cast<size_t>(d[k]);
                auto const got = o.call(calls[ci]);
                if (!have[ci]) {
                    Obj f;
                    fresh[ci] = f.call(calls[ci]);
                    have[ci]  = 1;
                }
                transition();
                validated();
                h = mix(h, ci + 1);
                state(h);
                if (got != fresh[ci])
                    fail(strf("call %zu (%s) returns something else than on a fresh object", k + 1, calls[ci].name.c_str()));
            }
        } while (odo(d, n));
    }
}

static std::vector<Inst> menu(bool deep, bool large) {
    std::vector<Inst> m;
    auto              add = [&](Inst const& in) { m.push_back(in); };
    Inst              one;
    one.tag   = "one";
    one.nrows = 1;
    one.cols  = {{0}};
    one.costs = {2};
    add(one);
    int k = 0;
    circulants(5, 5, {3}, {10}, [&](Inst const& in) {
        if (k++ == 0)
            add(in);
    });
    auto bl = blocks({1});
    add(bl[2]);                        // fano: 7 rows
    add(replicate(bl[3], 2, true, 3)); // 8 rows, more than five columns per row
    if (large)
        add(replicate(bl[0], 7, true, 3)); // 35 rows
    k = 0;
    stars(7, 7, [&](Inst const& in) {  // more than ten redundant columns in the final selection
        if (k == 60 || (deep && k == 20))
            add(in);
        ++k;
    });
    k = 0;
    stars(13, 13, [&](Inst const& in) {
        if (k == 30 || k == 57)
            add(in);
        ++k;
    });
    k = 0;
    graphs(4, {5}, {1}, [&](Inst const& in) {
        if (k == 20 || (deep && k == 62))
            add(in);
        ++k;
    });
    return m;
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool const deep = thorough();
    auto const m = menu(deep, false), l = menu(deep, true);
    histories<GreedyObj>("Greedy", m, 4);
    histories<PricerObj>("Pricer", l, deep ? 5 : 4);
    histories<FixingObj>("ColFixing", l, deep ? 5 : 4);
    histories<SubgradObj>("Subgradient", l, 3);
    histories<ThreePhaseObj>("ThreePhase", l, deep ? 4 : 3);
    return finish();
}
