// C16 / C17 / C18: every operation sequence up to a depth on the containers, against reference models.
#include <deque>
#include <map>
#include <set>

#include "common/cftio.hpp"
#include "core/utils.hpp"
#include "utils/CoverCounters.hpp"
#include "utils/SortedArray.hpp"
#include "utils/SparseBinMat.hpp"

using namespace mc;

static std::string show(std::vector<int> const& v) {
    std::string s = "{";
    for (int j : v)
        s += std::to_string(j) + " ";
    return s + "}";
}

#if PROP == 16
struct CovModel {
    std::vector<uint64_t> c;
};

static void check_counters(cft::CoverCounters const& cc, CovModel const& m, std::vector<std::vector<int>> const& subs, std::string const& h) {
    MC_CHECK(cc.size() == m.c.size(), "size %zu, expected %zu after%s", cc.size(), m.c.size(), h.c_str());
    for (int round = 0; round < 2; ++round) {  // queries must not change anything
        for (size_t i = 0; i < m.c.size(); ++i)
            MC_CHECK(cc[i] == m.c[i], "counter %zu is %llu, expected %llu after%s", i, (unsigned long long)cc[i], (unsigned long long)m.c[i], h.c_str());
        for (auto const& s : subs) {
            bool in = true, rc = true, ru = true;
            for (int i : s) {
                if (static_cast<size_t>(i) >= m.c.size())
                    in = false;
                else {
                    rc = rc && m.c[static_cast<size_t>(i)] >= 1;
                    ru = ru && m.c[static_cast<size_t>(i)] >= 2;
                }
            }
            if (!in)
                continue;
            std::vector<int16_t> v(s.begin(), s.end());
            MC_CHECK(cc.is_redundant_cover(v) == rc, "is_redundant_cover(%s) is %d after%s", show(s).c_str(), !rc, h.c_str());
            MC_CHECK(cc.is_redundant_uncover(v) == ru, "is_redundant_uncover(%s) is %d after%s", show(s).c_str(), !ru, h.c_str());
        }
    }
}

// op: subset index; kind 0 cover, 1 uncover, 2 reset
static bool apply(cft::CoverCounters& cc, CovModel& m, int kind, std::vector<int> const& s, size_t n, std::string& h) {
    if (kind == 2) {
        cc.reset(n);
        m.c.assign(n, 0);
        h += strf(" reset(%zu)", n);
        return true;
    }
    for (int i : s)
        if (static_cast<size_t>(i) >= m.c.size() || (kind == 1 && m.c[static_cast<size_t>(i)] == 0))
            return false;
    size_t want = 0;
    for (int i : s) {
        auto& c = m.c[static_cast<size_t>(i)];
        if (kind == 0)
            want += c++ == 0;
        else
            want += --c == 0;
    }
    std::vector<int16_t> v(s.begin(), s.end());
    h += (kind == 0 ? " cover" : " uncover") + show(s);
    size_t const got = kind == 0 ? cc.cover(v) : cc.uncover(v);
    MC_CHECK(got == want, "returned %zu, expected %zu in%s", got, want, h.c_str());
    transition();
    return true;
}

static void run16() {
    bool const deep = thorough();
    // (a) every sequence of operations, without merging states
    for (int n = 1; n <= 3; ++n) {
        std::vector<std::vector<int>> subs;
        for (unsigned m = 0; m < (1U << n); ++m)
            subs.push_back(mask_rows(m));
        int const nops  = static_cast<int>(2 * subs.size()) + 3;
        int const depth = n == 1 ? (deep ? 8 : 6) : n == 2 ? (deep ? 6 : 5) : (deep ? 5 : 4);
        std::vector<int> d(static_cast<size_t>(depth), 0);
        do {
            if (!take([&] { return strf("counters over %d elements, operations ", n) + show(d); }))
                continue;
            cft::CoverCounters cc(static_cast<size_t>(n));
            CovModel           m;
            m.c.assign(static_cast<size_t>(n), 0);
            std::string h;
            uint64_t    hs = static_cast<uint64_t>(n);
            for (int op : d) {
                bool ok;
                if (op < static_cast<int>(2 * subs.size()))
                    ok = apply(cc, m, op % 2, subs[static_cast<size_t>(op / 2)], 0, h);
                else
                    ok = apply(cc, m, 2, {}, static_cast<size_t>(n + op - static_cast<int>(2 * subs.size()) - 1), h);
                if (!ok)
                    break;  // precondition: only covered elements are uncovered
                hs = mix(hs, static_cast<uint64_t>(op));
                state(hs);
            }
            check_counters(cc, m, subs, h);
            validated();
        } while (odo(d, nops));
    }
    // (b) breadth first over counter states, four elements, counters up to 3
    {
        std::vector<std::vector<int>> subs;
        for (unsigned m = 0; m < 16; ++m)
            subs.push_back(mask_rows(m));
        int const        top = deep ? 6 : 4;
        std::vector<int> c(4, 0);
        do {
            if (!take([&] { return "every operation from counters " + show(c); }))
                continue;
            for (int kind = 0; kind < 2; ++kind)
                for (auto const& s : subs) {
                    cft::CoverCounters cc(4);
                    CovModel           m;
                    m.c.assign(4, 0);
                    std::string h;
                    for (int i = 0; i < 4; ++i)
                        for (int k = 0; k < c[static_cast<size_t>(i)]; ++k)
                            apply(cc, m, 0, {i}, 0, h);
                    if (!apply(cc, m, kind, s, 0, h))
                        continue;
                    auto copy = cc;
                    check_counters(cc, m, subs, h);
                    check_counters(copy, m, subs, h + " (copy)");
                    uint64_t hs = 77;
                    for (auto x : m.c)
                        hs = mix(hs, x);
                    state(hs);
                    validated();
                }
        } while (odo(c, top));
    }
    // (c) long histories: one element covered and uncovered n times
    for (int k = 0; k < 2; ++k) {
        uint64_t const n = deep ? 20000000 : 300000;
        if (!take([&] { return strf("element covered %llu times, then uncovered as often", (unsigned long long)n); }))
            continue;
        cft::CoverCounters cc(2);
        std::vector<int>   s = k ? std::vector<int>{0, 1} : std::vector<int>{1};
        for (uint64_t i = 0; i < n; ++i) {
            size_t const r = cc.cover(s);
            if (r != (i == 0 ? s.size() : 0) || cc[1] != i + 1 || !cc.is_redundant_cover(s) || cc.is_redundant_uncover(s) != (i > 0)) {
                fail(strf("wrong after covering %llu times: counter %llu", (unsigned long long)i + 1, (unsigned long long)cc[1]));
                return;
            }
        }
        for (uint64_t i = n; i-- > 0;) {
            size_t const r = cc.uncover(s);
            if (r != (i == 0 ? s.size() : 0) || cc[1] != i || cc.is_redundant_cover(s) != (i > 0) || cc.is_redundant_uncover(s) != (i > 1)) {
                fail(strf("wrong after uncovering down to %llu: counter %llu", (unsigned long long)i, (unsigned long long)cc[1]));
                return;
            }
        }
        transition(2 * n);
        validated();
    }
    // (d) many elements: sizes around word and byte boundaries, resets to smaller and larger sizes
    for (size_t a : {1, 2, 255, 256, 257, 32767, 65535, 65536, 70000})
        for (size_t b : {0, 1, 300, 65536, 65537}) {
            if (!take([&] { return strf("reset(%zu), cover all, reset(%zu), cover all", a, b); }))
                continue;
            cft::CoverCounters cc(3);
            for (size_t n : {a, b, a}) {
                cc.reset(n);
                std::vector<uint32_t> all;
                for (size_t i = 0; i < n; ++i)
                    all.push_back(static_cast<uint32_t>(i));
                bool z = true;
                for (size_t i = 0; i < n; ++i)
                    z = z && cc[i] == 0;
                MC_CHECK(cc.size() == n && z, "reset(%zu) leaves counters", n);
                MC_CHECK(cc.cover(all) == n, "covering %zu elements reports something else", n);
                MC_CHECK(cc.cover(all) == 0, "covering %zu covered elements reports new ones", n);
                MC_CHECK(cc.is_redundant_uncover(all), "all covered twice, not redundant");
                MC_CHECK(cc.uncover(all) == 0, "uncovering %zu elements covered twice reports uncovered ones", n);
                MC_CHECK(cc.uncover(all) == n, "uncovering %zu elements reports something else", n);
                transition(5);
            }
            validated();
        }
}
#endif

#if PROP == 17
struct E {
    int key, id;
};

struct ByKey {
    int operator()(E const& e) const {
        return e.key;
    }
};

struct Desc {  // larger values first, indirect key
    std::vector<float> const* v;

    float operator()(int e) const {
        return -(*v)[static_cast<size_t>(e)];
    }
};

template <size_t N>
static void run17_n(int depth, int nkeys) {
    // ops: 0..nkeys-1 try_insert(key); nkeys..2nkeys-1 insert(key) when there is room; 2nkeys clear
    std::vector<int> d(static_cast<size_t>(depth), 0);
    do {
        if (!take([&] { return strf("capacity %zu, %d keys, operations ", N, nkeys) + show(d); }))
            continue;
        cft::SortedArray<E, N, ByKey> a;
        std::vector<E>                m;  // reference, sorted, stable
        int                           id = 0;
        uint64_t                      hs = N;
        for (int op : d) {
            E e{op % nkeys, id++};
            if (op == 2 * nkeys) {
                a.clear();
                m.clear();
            } else if (op < nkeys) {
                size_t pos = m.size();
                while (pos > 0 && e.key < m[pos - 1].key)
                    --pos;
                bool const want = m.size() < N || pos < m.size();
                if (want) {
                    m.insert(m.begin() + static_cast<long>(pos), e);
                    if (m.size() > N)
                        m.pop_back();
                }
                bool const got = id % 2 ? a.try_insert(e) : a.try_insert(E(e));
                MC_CHECK(got == want, "try_insert returned %d, expected %d at operation %d", got, want, id);
            } else {
                if (m.size() >= N)
                    break;
                size_t pos = m.size();
                while (pos > 0 && e.key < m[pos - 1].key)
                    --pos;
                m.insert(m.begin() + static_cast<long>(pos), e);
                a.insert(e);
            }
            transition();
            hs = mix(hs, static_cast<uint64_t>(op) + 1);
            state(hs);
            bool same = a.size() == m.size();
            for (size_t i = 0; same && i < m.size(); ++i)
                same = a[i].key == m[i].key && a[i].id == m[i].id;
            size_t k = 0;
            for (auto const& x : a) {
                same = same && k < m.size() && x.id == m[k].id;
                ++k;
            }
            same = same && k == m.size() && (m.empty() || a.back().id == m.back().id);
            if (!same) {
                std::string s, t;
                for (size_t i = 0; i < a.size() && i < N; ++i)
                    s += strf("%d#%d ", a[i].key, a[i].id);
                for (auto const& x : m)
                    t += strf("%d#%d ", x.key, x.id);
                fail("contents [" + s + "], expected [" + t + strf("] after %d operations", id));
                break;
            }
        }
        validated();
    } while (odo(d, 2 * nkeys + 1));
}

// every sequence of n bounded insertions over `nkeys` indirect float keys
template <size_t N>
static void run17_indirect(int n, int nkeys) {
    std::vector<int> d(static_cast<size_t>(n), 0);
    do {
        if (!take([&] { return strf("capacity %zu, keys ", N) + show(d); }))
            continue;
        std::vector<float> val;
        for (int x : d)
            val.push_back(static_cast<float>(x) * 0.25f - 0.5f);
        auto             a = cft::make_custom_key_sorted_array<int, N>(Desc{&val});
        std::vector<int> all;
        for (int round = 0; round < 2; ++round) {
            a.clear();
            all.clear();
            for (int i = 0; i < n; ++i) {
                a.try_insert(i);
                all.push_back(i);
                auto ref = all;
                std::stable_sort(ref.begin(), ref.end(), [&](int x, int y) { return val[static_cast<size_t>(x)] > val[static_cast<size_t>(y)]; });
                if (ref.size() > N)
                    ref.resize(N);
                std::vector<int> got(a.begin(), a.end());
                if (got != ref) {
                    fail("holds " + show(got) + ", expected " + show(ref));
                    i = n;
                }
                transition();
            }
        }
        uint64_t hs = N + 100;
        for (int x : d)
            hs = mix(hs, static_cast<uint64_t>(x));
        state(hs);
        validated();
    } while (odo(d, nkeys));
}

static void run17() {
    bool const deep = thorough();
    run17_n<1>(deep ? 8 : 6, 3);
    run17_n<2>(deep ? 8 : 7, 3);
    run17_n<3>(deep ? 8 : 7, 3);
    run17_n<4>(deep ? 7 : 6, 4);
    run17_n<5>(deep ? 8 : 7, 3);
    run17_indirect<1>(7, 4);
    run17_indirect<2>(7, 4);
    run17_indirect<3>(8, deep ? 5 : 4);
    run17_indirect<5>(deep ? 10 : 9, 4);
    run17_indirect<5>(deep ? 8 : 7, 7);
    run17_indirect<10>(12, deep ? 3 : 2);
}
#endif

#if PROP == 18
using Cols = std::vector<std::vector<int>>;

static std::string mat_error(cft::SparseBinMat<cft::ridx_t> const& m, Cols const& ref) {
    if (m.size() != ref.size() || m.empty() != ref.empty())
        return strf("%zu columns (empty: %d), expected %zu", (size_t)m.size(), (int)m.empty(), ref.size());
    for (size_t j = 0; j < ref.size(); ++j) {
        std::vector<int> c;
        for (auto i : m[j])
            c.push_back(static_cast<int>(i));
        if (c != ref[j] || m[j].size() != ref[j].size())
            return strf("column %zu is ", j) + show(c) + ", expected " + show(ref[j]);
    }
    return "";
}

static void run18() {
    bool const deep = thorough();
    // Source instance whose columns are copied from
    Inst src;
    src.nrows = 4;
    src.cols  = {{0}, {}, {3, 1}, {0, 1, 2, 3}};
    src.costs = {1, 0, 2.5, 7};
    auto const sinst = to_cft(src);
    Cols const fresh = {{}, {2}, {1, 0}, {0, 2, 3}};
    // ops: 0-3 push fresh column, 4-7 copy from src, 8 clear everything, 9-11 rebuild rows with
    // 4, 5 and 7 rows, 12 append an initializer list, 13 clear the columns only through the matrix
    int const        nops  = 14;
    int const        depth = deep ? 6 : 5;
    std::vector<int> d(static_cast<size_t>(depth), 0);
    do {
        if (!take([&] { return "instance operations " + show(d); }))
            continue;
        cft::Instance       in;
        Cols                ref;
        std::vector<double> costs;
        uint64_t            hs = 3;
        std::string         h;
        bool                ok = true;
        for (int op : d) {
            if (op < 4) {
                std::vector<cft::ridx_t> v(fresh[static_cast<size_t>(op)].begin(), fresh[static_cast<size_t>(op)].end());
                in.cols.push_back(v);
                in.costs.push_back(static_cast<cft::real_t>(op) + 0.5f);
                ref.push_back(fresh[static_cast<size_t>(op)]);
                costs.push_back(op + 0.5);
            } else if (op < 8) {
                cft::push_back_col_from(sinst, static_cast<cft::cidx_t>(op - 4), in);
                ref.push_back(src.cols[static_cast<size_t>(op - 4)]);
                costs.push_back(src.costs[static_cast<size_t>(op - 4)]);
            } else if (op == 8) {
                cft::clear_inst(in);
                ref.clear();
                costs.clear();
                MC_CHECK(in.rows.empty(), "rows left after clearing, operations %s", show(d).c_str());
            } else if (op < 12) {
                int const nr = op == 9 ? 4 : op == 10 ? 5 : 7;
                cft::fill_rows_from_cols(in.cols, static_cast<cft::ridx_t>(nr), in.rows);
                std::vector<std::vector<int>> rows(static_cast<size_t>(nr));
                for (size_t j = 0; j < ref.size(); ++j)
                    for (int i : ref[j])
                        rows[static_cast<size_t>(i)].push_back(static_cast<int>(j));
                MC_CHECK(in.rows.size() == static_cast<size_t>(nr), "%zu rows instead of %d, operations %s", in.rows.size(), nr, show(d).c_str());
                for (size_t i = 0; i < rows.size() && i < in.rows.size(); ++i) {
                    std::vector<int> r;
                    for (auto j : in.rows[i])
                        r.push_back(static_cast<int>(j));
                    MC_CHECK(r == rows[i], "row %zu lists %s, expected %s, operations %s", i, show(r).c_str(), show(rows[i]).c_str(), show(d).c_str());
                }
            } else if (op == 12) {
                in.cols.push_back({1, 3});
                in.costs.push_back(4);
                ref.push_back({1, 3});
                costs.push_back(4);
            } else {
                in.cols.clear();
                in.costs.clear();
                ref.clear();
                costs.clear();
            }
            transition();
            hs = mix(hs, static_cast<uint64_t>(op) + 1);
            state(hs);
            auto const e = mat_error(in.cols, ref);
            if (!e.empty()) {
                fail(e + ", operations " + show(d));
                ok = false;
                break;
            }
            auto const copy = in;
            auto const e2   = mat_error(copy.cols, ref);
            MC_CHECK(e2.empty(), "copy: %s, operations %s", e2.c_str(), show(d).c_str());
            bool ce = in.costs.size() == costs.size();
            for (size_t j = 0; ce && j < costs.size(); ++j)
                ce = static_cast<double>(in.costs[j]) == costs[j];
            MC_CHECK(ce, "costs differ, operations %s", show(d).c_str());
        }
        if (ok)
            validated();
    } while (odo(d, nops));

    // Row views of every small instance (rows listed in any order), over stale row views
    auto rows_of = [&](Inst const& in) {
        if (!take([&] { return "row view and reduced costs of " + in.str(); }))
            return;
        cft::Instance inst;
        for (auto const& c : in.cols) {
            std::vector<cft::ridx_t> v(c.begin(), c.end());
            inst.cols.push_back(v);
        }
        for (double c : in.costs)
            inst.costs.push_back(static_cast<cft::real_t>(c));
        for (int stale = 0; stale < 3; ++stale) {
            std::vector<std::vector<cft::cidx_t>> rows;
            for (int k = 0; k < stale * 3; ++k)
                rows.push_back({9, 8, 7});
            cft::fill_rows_from_cols(inst.cols, static_cast<cft::ridx_t>(in.nrows), rows);
            std::vector<std::vector<cft::cidx_t>> want(static_cast<size_t>(in.nrows));
            for (size_t j = 0; j < in.cols.size(); ++j)
                for (int i : in.cols[j])
                    want[static_cast<size_t>(i)].push_back(static_cast<cft::cidx_t>(j));
            MC_CHECK(rows == want, "wrong row view (stale contents %d)", stale);
            inst.rows = rows;
        }
        std::vector<int>          d2(static_cast<size_t>(in.nrows), 0);
        double const              alpha[] = {0, 0.25, 3};
        std::vector<cft::real_t>  rc(7, 123), u(static_cast<size_t>(in.nrows));
        do {
            for (size_t i = 0; i < u.size(); ++i)
                u[i] = static_cast<cft::real_t>(alpha[d2[i]]);
            std::vector<std::pair<double, long>> hooked;
            cft::compute_reduced_costs(inst, u, rc, [&](cft::real_t v, cft::cidx_t j) { hooked.push_back({(double)v, (long)j}); });
            std::vector<cft::real_t> rc2;
            cft::compute_reduced_costs(inst, u, rc2);
            MC_CHECK(rc == rc2, "reduced costs depend on the hook or on old contents");
            MC_CHECK(rc.size() == in.cols.size() && hooked.size() == in.cols.size(), "%zu reduced costs, %zu hook calls for %zu columns", rc.size(), hooked.size(), in.cols.size());
            for (size_t j = 0; j < in.cols.size() && j < rc.size() && j < hooked.size(); ++j) {
                double want = static_cast<double>(static_cast<cft::real_t>(in.costs[j]));
                for (int i : in.cols[j])
                    want -= static_cast<double>(u[static_cast<size_t>(i)]);
                MC_CHECK(std::fabs((double)rc[j] - want) <= 1e-5 && std::fabs(hooked[j].first - want) <= 1e-5 && hooked[j].second == (long)j, "column %zu: reduced cost %.9g (hook %.9g for %ld), expected %.9g", j, (double)rc[j], hooked[j].first, hooked[j].second, want);
            }
            transition();
            uint64_t hs = in.hash();
            for (int x : d2)
                hs = mix(hs, static_cast<uint64_t>(x));
            state(hs);
        } while (odo(d2, 3));
        validated();
    };
    all_small(1, 3, {0, 1, 2.5}, true, rows_of, true);
    all_small(2, 3, {1, 2.5}, true, rows_of, true);
    all_small(3, 3, {1, 2.5}, true, rows_of, true);
    all_small(4, 3, {1.5}, true, rows_of, true);
    all_small(4, 4, {1.5}, false, rows_of, true);
    circulants(4, 7, {3, 5}, {1}, [&](Inst const& in) {
        rows_of(in);
        Inst x = in;
        for (auto& c : x.cols)
            std::reverse(c.begin(), c.end());
        rows_of(x);
    });
    // large matrices: sizes beyond 16 bits
    for (int n : {1000, 65535, 65536, 70000}) {
        if (!take([&] { return strf("%d columns", n); }))
            continue;
        cft::Instance in, dst;
        for (int j = 0; j < n; ++j) {
            std::vector<cft::ridx_t> v;
            for (int k = 0; k <= j % 3; ++k)
                v.push_back(static_cast<cft::ridx_t>((j * 7 + k * 11) % 50));
            in.cols.push_back(v);
            in.costs.push_back(static_cast<cft::real_t>(j % 100));
        }
        for (int j = n - 1; j >= 0; --j)
            cft::push_back_col_from(in, static_cast<cft::cidx_t>(j), dst);
        cft::fill_rows_from_cols(dst.cols, 50, dst.rows);
        size_t tot = 0;
        bool   okk = dst.cols.size() == static_cast<size_t>(n);
        for (int j = 0; j < n && okk; ++j) {
            auto const c = dst.cols[static_cast<size_t>(n - 1 - j)];
            okk          = c.size() == static_cast<size_t>(j % 3 + 1) && dst.costs[static_cast<size_t>(n - 1 - j)] == static_cast<cft::real_t>(j % 100);
            for (int k = 0; okk && k <= j % 3; ++k)
                okk = c[static_cast<size_t>(k)] == (j * 7 + k * 11) % 50;
            tot += c.size();
        }
        size_t tot2 = 0;
        for (auto const& r : dst.rows) {
            tot2 += r.size();
            for (size_t k = 1; k < r.size(); ++k)
                okk = okk && r[k - 1] < r[k];
        }
        MC_CHECK(okk && tot == tot2, "matrix of %d columns is wrong", n);
        transition();
        validated();
    }
}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
#if PROP == 16
    run16();
#elif PROP == 17
    run17();
#else
    run18();
#endif
    return finish();
}
