// C19: well-formed instance files under every permitted layout are read exactly.
// C20: every mutation of well-formed files, and every short file, is rejected or yields a sound instance.
// C27: with unit costs the same rows and columns, all costs one.
#include <algorithm>
#include <cctype>
#include <set>
#include <stdexcept>

#include "cftio.hpp"
#include "core/parsing.hpp"
#include "filegen.hpp"

#ifndef PROP
#define PROP 19
#endif
using namespace mc;

static MemFile* gfile;
static MemFile* gsol;

static char const* const fmt_name[4] = {"RAIL", "SCP", "CVRP", "MPS"};

static cft::FileData load(int f, std::string const& path) {
    cft::FileData d = {};
    if (f == 0)
        d.inst = cft::parse_rail_instance(path);
    else if (f == 1)
        d.inst = cft::parse_scp_instance(path);
    else if (f == 2)
        d = cft::parse_cvrp_instance(path);
    else
        d.inst = cft::parse_mps_instance(path);
    return d;
}

static cft::Environment quiet_env(int f) {
    cft::Environment env;
    env.verbose   = 0;
    env.parser    = fmt_name[f];
    env.inst_path = gfile->path;
    return env;
}

static uint64_t hash_inst(cft::Instance const& a) {
    uint64_t h = mix(7, a.rows.size());
    h          = hash_bytes(a.cols.idxs.data(), a.cols.idxs.size() * sizeof(a.cols.idxs[0]), h);
    for (auto b : a.cols.begs)
        h = mix(h, static_cast<uint64_t>(b));
    for (auto c : a.costs) {
        double x = static_cast<double>(c);
        h        = hash_bytes(&x, sizeof x, h);
    }
    return h;
}

// Empty if `a` is exactly `in` (as sets of rows per column).
static std::string differs(cft::Instance const& a, Inst const& in) {
    size_t const n = in.cols.size();
    if (a.cols.begs.size() != n + 1 || a.cols.size() != n)
        return strf("%zu columns read, expected %zu", a.cols.size(), n);
    if (a.costs.size() != n)
        return strf("%zu costs read, expected %zu", a.costs.size(), n);
    if (a.rows.size() != static_cast<size_t>(in.nrows))
        return strf("%zu rows read, expected %d", a.rows.size(), in.nrows);
    for (size_t j = 0; j < n; ++j) {
        std::vector<int> c, e = in.cols[j];
        for (auto i : a.cols[j])
            c.push_back(static_cast<int>(i));
        std::sort(c.begin(), c.end());
        std::sort(e.begin(), e.end());
        if (c != e)
            return strf("column %zu has other rows", j);
        if (static_cast<double>(a.costs[j]) != static_cast<double>(static_cast<cft::real_t>(in.costs[j])))
            return strf("column %zu costs %.9g, expected %.9g", j, static_cast<double>(a.costs[j]), in.costs[j]);
    }
    for (int i = 0; i < in.nrows; ++i) {
        std::vector<int> e, r;
        for (size_t j = 0; j < n; ++j)
            if (std::find(in.cols[j].begin(), in.cols[j].end(), i) != in.cols[j].end())
                e.push_back(static_cast<int>(j));
        for (auto j : a.rows[static_cast<size_t>(i)])
            r.push_back(static_cast<int>(j));
        if (e != r)
            return strf("row %d lists other columns", i);
    }
    return "";
}

// Empty if `a` is a structurally sound and feasible instance.
static std::string unsound(cft::Instance const& a) {
    size_t const n = a.costs.size(), m = a.rows.size();
    if (a.cols.begs.empty() || a.cols.begs.size() != n + 1)
        return strf("%zu column offsets for %zu costs", a.cols.begs.size(), n);
    if (a.cols.begs.front() != 0 || static_cast<size_t>(a.cols.begs.back()) != a.cols.idxs.size())
        return "column offsets do not span the index array";
    if (n == 0 || m == 0)
        return strf("empty instance (%zu rows, %zu columns)", m, n);
    std::vector<std::vector<size_t>> rows(m);
    for (size_t j = 0; j < n; ++j) {
        if (a.cols.begs[j] > a.cols.begs[j + 1])
            return "column offsets decrease";
        std::set<long long> seen;
        for (size_t k = static_cast<size_t>(a.cols.begs[j]); k < static_cast<size_t>(a.cols.begs[j + 1]); ++k) {
            long long const i = static_cast<long long>(a.cols.idxs[k]);
            if (i < 0 || i >= static_cast<long long>(m))
                return strf("row index %lld out of range [0,%zu)", i, m);
            if (!seen.insert(i).second)
                return strf("row %lld repeated in column %zu", i, j);
            rows[static_cast<size_t>(i)].push_back(j);
        }
        double const c = static_cast<double>(a.costs[j]);
        if (!std::isfinite(c) || std::fabs(c) >= 3.0e38)
            return strf("column %zu has cost %g", j, c);
    }
    for (size_t i = 0; i < m; ++i) {
        if (rows[i].empty())
            return strf("row %zu is covered by no column", i);
        if (a.rows[i].size() != rows[i].size())
            return strf("row view of row %zu does not match the columns", i);
        for (size_t k = 0; k < rows[i].size(); ++k)
            if (static_cast<size_t>(a.rows[i][k]) != rows[i][k])
                return strf("row view of row %zu does not match the columns", i);
    }
    return "";
}

static std::string bad_initsol(cft::Instance const& a, cft::Solution const& s) {
    if (s.idxs.empty())
        return "";
    std::vector<char> cov(a.rows.size(), 0);
    double            c = 0, mag = 1;
    for (auto j : s.idxs) {
        if (static_cast<long long>(j) < 0 || static_cast<size_t>(j) >= a.costs.size())
            return strf("starting solution has column %lld of %zu", static_cast<long long>(j), a.costs.size());
        c += static_cast<double>(a.costs[static_cast<size_t>(j)]);
        mag = std::max(mag, std::fabs(static_cast<double>(a.costs[static_cast<size_t>(j)])));
        for (auto i : a.cols[static_cast<size_t>(j)])
            cov[static_cast<size_t>(i)] = 1;
    }
    for (size_t i = 0; i < cov.size(); ++i)
        if (!cov[i])
            return strf("starting solution does not cover row %zu", i);
    if (std::fabs(c - static_cast<double>(s.cost)) > 1e-5 * mag * static_cast<double>(s.idxs.size()))
        return strf("starting solution reported with cost %g, its columns cost %g", static_cast<double>(s.cost), c);
    return "";
}

// ---------------------------------------------------------------- C19

static std::vector<Layout> layouts(bool scp) {
    std::vector<Layout> out;
    char const*         eols[]   = {"\n", "\r\n"};
    char const*         seps[]   = {" ", "   ", "\t", " \t "};
    char const*         leads[]  = {"", " ", "\t "};
    char const*         trails[] = {"", " ", "\t"};
    for (auto e : eols)
        for (auto s : seps)
            for (auto l : leads)
                for (auto t : trails)
                    for (int nl = 0; nl < 2; ++nl)
                        for (int rev = 0; rev < 2; ++rev)
                            for (int nf = 0; nf < 5; ++nf)
                                for (int w = 0; w <= (scp ? 3 : 0); ++w) {
                                    Layout x;
                                    x.eol     = e;
                                    x.sep     = s;
                                    x.lead    = l;
                                    x.trail   = t;
                                    x.last_nl = nl == 0;
                                    x.reverse = rev != 0;
                                    x.numfmt  = nf;
                                    x.wrap    = w;
                                    out.push_back(x);
                                }
    return out;
}

static void check_exact(int f, Inst const& in, std::string const& text, std::vector<int> const& sol) {
    gfile->set(text);
    transition();
    try {
        auto        d = load(f, gfile->path);
        std::string e = differs(d.inst, in);
        if (e.empty() && f == 2) {
            if (d.init_sol.idxs.size() != sol.size())
                e = strf("starting solution has %zu columns, expected %zu", d.init_sol.idxs.size(), sol.size());
            double c = 0;
            for (size_t k = 0; e.empty() && k < sol.size(); ++k) {
                c += in.costs[static_cast<size_t>(sol[k])];
                if (static_cast<int>(d.init_sol.idxs[k]) != sol[k])
                    e = strf("starting solution column %zu differs", k);
            }
            if (e.empty() && std::fabs(static_cast<double>(d.init_sol.cost) - c) > 1e-5 * (1 + c))
                e = strf("starting solution costs %g, expected %g", static_cast<double>(d.init_sol.cost), c);
        }
        MC_CHECK(e.empty(), "%s: %s; file: %s", fmt_name[f], e.c_str(), show(text).c_str());
        state(hash_inst(d.inst));
        validated();
    } catch (std::exception const& ex) {
        fail(strf("%s: well-formed file rejected (%s); file: %s", fmt_name[f], ex.what(), show(text).c_str()));
    }
}

// The instances written out in every format.
static void c19_instances(InstFn const& f) {
    bool const          th = thorough();
    std::vector<double> a1 = {1, 2.5, 0}, a2 = {0.125, 1000000, 7};
    all_small(2, 2, a1, true, f);
    all_small(2, 3, {1, 0.25}, true, f);
    all_small(3, 2, a2, true, f);
    all_small(1, 2, a2, true, f);
    all_small(1, 1, {0, 3, 0.0009765625}, true, f);
    all_small(3, 3, {1, 2.5}, false, f);
    if (th) {
        all_small(3, 3, a1, true, f);
        all_small(4, 3, {1, 1.5}, false, f);
        all_small(2, 4, {1, 2.5}, true, f);
    }
}

static void covers(Inst const& in, std::function<void(std::vector<int> const&)> const& f) {
    int const        n = static_cast<int>(in.cols.size());
    std::vector<int> s;
    for (unsigned m = 1; m < (1u << n); ++m) {
        std::vector<int> v;
        std::set<int>    r;
        for (int j = 0; j < n; ++j)
            if (m >> j & 1u) {
                v.push_back(j);
                r.insert(in.cols[static_cast<size_t>(j)].begin(), in.cols[static_cast<size_t>(j)].end());
            }
        if (static_cast<int>(r.size()) < in.nrows)
            continue;
        do
            f(v);
        while (std::next_permutation(v.begin(), v.end()));
    }
}

static void run_c19() {
    auto const lay = layouts(false), lay_scp = layouts(true);
    uint64_t   idx = 0;
    c19_instances([&](Inst const& raw) {
        Inst in = raw;
        ++idx;
        for (int f = 0; f < 3; ++f) {
            if (!take([=] { return std::string(fmt_name[f]) + " all layouts: " + in.str(); }))
                continue;
            auto const& L = f == 1 ? lay_scp : lay;
            for (size_t k = 0; k < L.size(); ++k) {
                // ".5" and "+.." forms only matter once per layout; fine, they are all tried
                if (f == 0)
                    check_exact(f, in, to_rail(in, L[k]), {});
                else if (f == 1)
                    check_exact(f, in, to_scp(in, L[k]), {});
                else {
                    // one solution per layout, rotating; all of them under the default layouts
                    std::vector<std::vector<int>> all;
                    covers(in, [&](std::vector<int> const& s) { all.push_back(s); });
                    auto const& s = all[k % all.size()];
                    check_exact(f, in, to_cvrp(in, L[k], s), s);
                }
            }
            if (f == 2)
                for (int nl = 0; nl < 2; ++nl)
                    covers(in, [&](std::vector<int> const& s) {
                        Layout l;
                        l.last_nl = nl == 0;
                        check_exact(2, in, to_cvrp(in, l, s), s);
                    });
        }
        if (take([=] { return "MPS all layouts: " + in.str(); })) {
            std::vector<int> ro;
            for (int i = 0; i < in.nrows; ++i)
                ro.push_back(i);
            bool first = true;
            do {
                // The declaration order numbers the rows: expect the instance with permuted rows.
                Inst             ex = in;
                std::vector<int> num_of(static_cast<size_t>(in.nrows));
                for (int k = 0; k < in.nrows; ++k)
                    num_of[static_cast<size_t>(ro[static_cast<size_t>(k)])] = k;
                for (auto& c : ex.cols)
                    for (int& i : c)
                        i = num_of[static_cast<size_t>(i)];
                std::vector<int> d(13, 0);
                int const        base[13] = {4, 3, 3, 3, 3, 2, 3, 2, 2, 2, 2, 2, 2};
                // pairwise-complete blocks instead of the full product: the first seven knobs in full, the
                // file-level knobs in full, with the other group at its rotating setting
                for (int grp = 0; grp < 2; ++grp) {
                    std::fill(d.begin(), d.end(), 0);
                    int const lo = grp == 0 ? 0 : 5, hi = grp == 0 ? 6 : 13;
                    uint64_t  rot = idx;
                    for (;;) {
                        auto      v = d;
                        for (int q = 0; q < 13; ++q)
                            if (q < lo || q >= hi)
                                v[static_cast<size_t>(q)] = static_cast<int>((rot / static_cast<uint64_t>(q + 1)) % static_cast<uint64_t>(base[q]));
                        ++rot;
                        MpsLayout m;
                        m.naming    = v[0];
                        m.row_order = ro;
                        m.obj_pos   = v[1];
                        m.obj_in    = v[2];
                        m.per_line  = v[3] == 2 ? 1 : v[3] == 1 ? 2 : 3;
                        m.row_type  = v[4];
                        m.marker    = v[5] != 0;
                        m.tailkind  = v[6];
                        m.head      = v[7] ? 9 : 1;
                        m.sep_tab   = v[8] != 0;
                        m.crlf      = v[9] != 0;
                        m.blank     = v[10] != 0 && m.head < 5;
                        m.last_nl   = v[11] == 0;
                        m.numfmt    = static_cast<int>(rot % 5);
                        m.skip_zero_obj = v[12] != 0;
                        if (m.per_line == 3)
                            m.per_line = 2;
                        check_exact(3, ex, to_mps(in, m), {});
                        int q = hi - 1;
                        while (q >= lo && ++d[static_cast<size_t>(q)] == base[q])
                            d[static_cast<size_t>(q--)] = 0;
                        if (q < lo)
                            break;
                    }
                }
                if (!first && !thorough() && in.nrows > 2)
                    break;  // quick: identity and one other order for three rows
                first = false;
            } while (std::next_permutation(ro.begin(), ro.end()));
        }
    });
    // Larger files: many rows and columns, long lines, row indexes up to the type's limit.
    struct Big {
        int r, c;
    } bigs[] = {{1, 400}, {400, 3}, {3000, 40}, {32766, 4}, {12, 5000}};
    for (auto b : bigs)
        for (int f = 0; f < 4; ++f)
            for (int k = 0; k < 4; ++k) {
                if (!take([=] { return strf("%s big %dx%d layout %d", fmt_name[f], b.r, b.c, k); }))
                    continue;
                Inst in;
                in.tag   = "big";
                in.nrows = b.r;
                for (int j = 0; j < b.c; ++j) {
                    std::vector<int> c;
                    for (int i = j % b.r; i < b.r; i += 1 + j % 7)
                        c.push_back(i);
                    in.cols.push_back(c);
                    in.costs.push_back(1 + (j % 64) * 0.25);
                }
                Layout l;
                l.eol     = k & 1 ? "\r\n" : "\n";
                l.last_nl = !(k & 2);
                l.wrap    = k == 0 ? 0 : k == 1 ? 1 : 12;
                l.trail   = k == 3 ? " " : "";
                MpsLayout m;
                for (int i = 0; i < b.r; ++i)
                    m.row_order.push_back(i);
                m.per_line = 1 + k % 2;
                m.row_type = k % 3;
                std::vector<int> all;
                for (int j = 0; j < b.c; ++j)
                    all.push_back(b.c - 1 - j);
                check_exact(f, in, f == 0 ? to_rail(in, l) : f == 1 ? to_scp(in, l) : f == 2 ? to_cvrp(in, l, all) : to_mps(in, m), all);
            }
}

// ---------------------------------------------------------------- C20

// Loading either throws or gives a sound instance (and starting solution).
// `incomplete`: the file ends before everything it announces; it must not be accepted.
static void check_robust(int f, std::string const& text, bool incomplete, char const* how, std::string const* soltext = nullptr) {
    gfile->set(text);
    transition();
    std::string e;
    bool        accepted = false;
    try {
        auto env = quiet_env(f);
        if (soltext != nullptr) {
            gsol->set(*soltext);
            env.initsol_path = gsol->path;
        }
        auto d   = cft::parse_inst_and_initsol(env);
        accepted = true;
        e        = unsound(d.inst);
        if (e.empty())
            e = bad_initsol(d.inst, d.init_sol);
        if (e.empty() && incomplete)
            e = "file ends before everything it announces, yet it is accepted";
        if (e.empty())
            state(hash_inst(d.inst));
    } catch (std::exception const& ex) {
        count("rejected");
        state(hash_bytes(ex.what(), strlen(ex.what()), static_cast<uint64_t>(f)));
    }
    if (accepted)
        count("accepted");
    MC_CHECK(e.empty(), "%s, %s: %s; file: %s%s%s", fmt_name[f], how, e.c_str(), show(text).c_str(), soltext ? "; solution file: " : "", soltext ? show(*soltext).c_str() : "");
    validated();
}

static std::vector<std::string> tokens_of(std::string const& s) {
    std::vector<std::string> t;
    std::string              cur;
    for (char c : s)
        if (isspace(static_cast<unsigned char>(c))) {
            if (!cur.empty())
                t.push_back(cur);
            cur.clear();
        } else
            cur += c;
    if (!cur.empty())
        t.push_back(cur);
    return t;
}

// Number of tokens a file needs according to its own numbers (0: cannot tell).
static bool announces_more(int f, std::string const& s) {
    auto t = tokens_of(s);
    if (f == 3)
        return std::find(t.begin(), t.end(), "ROWS") == t.end() || std::find(t.begin(), t.end(), "COLUMNS") == t.end();
    if (t.size() < 2)
        return true;
    for (auto& x : t) {  // only plain numbers are judged
        int dots = 0, digits = 0;
        for (char c : x) {
            dots += c == '.';
            digits += isdigit(static_cast<unsigned char>(c)) != 0;
        }
        if (dots > 1 || digits == 0 || static_cast<size_t>(dots + digits) != x.size())
            return false;
    }
    long r = atol(t[0].c_str()), c = atol(t[1].c_str());
    if (r < 1 || c < 1)
        return true;
    size_t p = 2;
    if (f == 0) {
        for (long j = 0; j < c; ++j) {
            if (p + 1 >= t.size())
                return true;
            long k = atol(t[p + 1].c_str());
            p += 2;
            if (k < 0 || p + static_cast<size_t>(k) > t.size())
                return true;
            p += static_cast<size_t>(k);
        }
        return false;
    }
    if (f == 1) {
        // Values left over on a line after the announced ones do not count: read line by line.
        std::vector<std::vector<std::string>> ln;
        std::string                           cur;
        for (char ch : s + "\n")
            if (ch == '\n') {
                ln.push_back(tokens_of(cur));
                cur.clear();
            } else
                cur += ch;
        size_t at   = 1;
        auto   take_n = [&](long n) {
            for (size_t k = 0; n > 0; --n) {
                if (at >= ln.size() || ln[at].empty())
                    return false;
                if (++k == ln[at].size() || n == 1) {
                    k = 0;
                    ++at;
                }
            }
            return true;
        };
        if (!take_n(c))
            return true;
        for (long i = 0; i < r; ++i) {
            if (at >= ln.size() || ln[at].empty())
                return true;
            long k = atol(ln[at][0].c_str());
            ++at;
            if (!take_n(k))
                return true;
        }
        return false;
    }
    // CVRP: one line per column
    long lines = 0;
    bool in    = false;
    for (char ch : s) {
        if (!isspace(static_cast<unsigned char>(ch)))
            in = true;
        if (ch == '\n') {
            lines += in;
            in = false;
        }
    }
    lines += in;
    return lines < 1 + c;
}

static std::vector<std::string> base_files(int f) {
    std::vector<std::string> out;
    std::vector<Inst>        ins;
    auto                     mk = [&](int r, std::vector<std::vector<int>> const& c, std::vector<double> const& w) {
        Inst in;
        in.nrows = r;
        in.cols  = c;
        in.costs = w;
        ins.push_back(in);
    };
    mk(1, {{0}}, {1});
    mk(2, {{0}, {0, 1}, {1}}, {1, 2.5, 0});
    mk(3, {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}}, {1, 1, 1, 2});
    mk(3, {{2}, {0, 1}, {0, 1}}, {12, 10.25, 9});
    if (thorough())
        mk(5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {0, 4}, {0, 2, 4}}, {3, 3, 3, 3, 3, 5});
    for (auto& in : ins)
        for (int k = 0; k < 2; ++k) {
            Layout l;
            l.last_nl = k == 0;
            l.wrap    = k ? 2 : 0;
            MpsLayout m;
            for (int i = 0; i < in.nrows; ++i)
                m.row_order.push_back(i);
            m.last_nl  = k == 0;
            m.per_line = 2 - k;
            m.marker   = k == 1;
            m.tailkind = k ? 1 : 0;
            m.row_type = k ? 2 : 0;
            m.naming   = k ? 2 : 0;
            std::vector<int> s;
            for (size_t j = 0; j < in.cols.size(); ++j)
                s.push_back(static_cast<int>(j));
            out.push_back(f == 0 ? to_rail(in, l) : f == 1 ? to_scp(in, l) : f == 2 ? to_cvrp(in, l, s) : to_mps(in, m));
            if (f == 2)
                out.push_back(to_cvrp(in, l, {}));
        }
    return out;
}

static std::vector<std::string> const& bad_tokens() {
    static std::vector<std::string> const v = {"-1", "0", "1", "2", "3", "4", "7", "99", "127", "128", "32767", "32768", "65535", "65536", "65537",
                                               "-32768", "-65535", "2147483647", "2147483648", "4294967296", "4294967297", "-2147483649",
                                               "9223372036854775807", "9223372036854775808", "18446744073709551617", "-9223372036854775808",
                                               "-99999999999999999999", "99999999999999999999", "1.5", "-0", "+1", "1e3", "1e30", "1e39", "-1e39",
                                               "1e400", "1e9999", "nan", "inf", "-inf", "0x1", "abc", "-", "+", ".", "1a", "1,2", "N", "G", "RHS",
                                               "ROWS", "COLUMNS", "obj", "row1", "x1", "'", "%s", "\xff\xfe", std::string("\0", 1)};
    return v;
}

static void mutations(std::string const& s, std::function<void(std::string const&, char const*)> const& f) {
    f(s, "unchanged");
    for (size_t k = 0; k <= s.size(); ++k)
        f(s.substr(0, k), "truncated");
    char const bytes[] = {' ', '\n', '\t', '\r', '\0', '0', '1', '9', '-', '.', 'e', 'x', '\xff', '\x80'};
    for (size_t k = 0; k < s.size(); ++k) {
        f(s.substr(0, k) + s.substr(k + 1), "byte removed");
        f(s.substr(0, k) + s[k] + s.substr(k), "byte doubled");
        for (char b : bytes) {
            if (b != s[k])
                f(s.substr(0, k) + b + s.substr(k + 1), "byte replaced");
            f(s.substr(0, k) + b + s.substr(k), "byte inserted");
        }
    }
    // tokens
    std::vector<std::pair<size_t, size_t>> tk;
    for (size_t k = 0; k < s.size();) {
        if (isspace(static_cast<unsigned char>(s[k]))) {
            ++k;
            continue;
        }
        size_t e = k;
        while (e < s.size() && !isspace(static_cast<unsigned char>(s[e])))
            ++e;
        tk.push_back({k, e});
        k = e;
    }
    for (auto const& t : tk) {
        std::string a = s.substr(0, t.first), x = s.substr(t.first, t.second - t.first), z = s.substr(t.second);
        f(a + z, "token removed");
        f(a + x + " " + x + z, "token doubled");
        f(a + "-" + x + z, "token negated");
        for (auto const& b : bad_tokens()) {
            f(a + b + z, "token replaced");
            f(a + b + " " + x + z, "token inserted");
        }
        for (auto const& u : tk)
            if (u.first > t.first) {
                f(a + s.substr(u.first, u.second - u.first) + s.substr(t.second, u.first - t.second) + x + s.substr(u.second), "tokens swapped");
            }
    }
    // lines
    std::vector<std::string> ln;
    std::string              cur;
    for (char c : s) {
        cur += c;
        if (c == '\n') {
            ln.push_back(cur);
            cur.clear();
        }
    }
    if (!cur.empty())
        ln.push_back(cur);
    auto cat = [&](std::vector<std::string> const& v) {
        std::string o;
        for (auto& l : v)
            o += l;
        return o;
    };
    for (size_t k = 0; k < ln.size(); ++k) {
        auto v = ln;
        v.erase(v.begin() + static_cast<long>(k));
        f(cat(v), "line removed");
        v = ln;
        v.insert(v.begin() + static_cast<long>(k), ln[k]);
        f(cat(v), "line doubled");
        v = ln;
        v.insert(v.begin() + static_cast<long>(k), "\n");
        f(cat(v), "blank line inserted");
        for (size_t q = k + 1; q < ln.size(); ++q) {
            v = ln;
            std::swap(v[k], v[q]);
            f(cat(v), "lines swapped");
            v = ln;
            v.erase(v.begin() + static_cast<long>(q));
            v.erase(v.begin() + static_cast<long>(k));
            f(cat(v), "two lines removed");
        }
        if (!ln[k].empty() && ln[k].back() == '\n') {
            v        = ln;
            v[k].back() = ' ';
            f(cat(v), "lines joined");
        }
    }
}

static void run_c20() {
    std::string const mode = arg("--mode", "mut");
    if (mode == "mut") {
        for (int f = 0; f < 4; ++f) {
            auto bases = base_files(f);
            for (auto const& b : bases)
                mutations(b, [&](std::string const& s, char const* how) {
                    if (!take([=] { return strf("%s %s: ", fmt_name[f], how) + show(s); }))
                        return;
                    check_robust(f, s, announces_more(f, s), how);
                });
        }
    } else if (mode == "mut2") {
        // every pair (truncation or token replacement) x (token replacement) on the smallest files
        for (int f = 0; f < 4; ++f) {
            auto b = base_files(f)[f == 2 ? 4 : 2];
            mutations(b, [&](std::string const& s, char const* how) {
                if (strcmp(how, "token removed") != 0 && strcmp(how, "line removed") != 0 && strcmp(how, "lines swapped") != 0 &&
                    strcmp(how, "token doubled") != 0 && strcmp(how, "truncated") != 0 && strcmp(how, "lines joined") != 0 && strcmp(how, "tokens swapped") != 0)
                    return;
                if (!take([=] { return strf("%s double mutation of %s: ", fmt_name[f], how) + show(s); }))
                    return;
                mutations(s, [&](std::string const& s2, char const* how2) {
                    if (!thorough() && strcmp(how2, "truncated") != 0 && strcmp(how2, "token removed") != 0 && strcmp(how2, "token negated") != 0 && strcmp(how2, "token doubled") != 0)
                        return;
                    check_robust(f, s2, announces_more(f, s2), how2);
                });
            });
        }
    } else if (mode == "bytes") {
        // every file over a small alphabet up to a length
        std::string const A   = "01 2\n-";
        int const         len = thorough() ? 9 : 7;
        for (int f = 0; f < 3; ++f)
            for (int n = 0; n <= len; ++n) {
                int const        pre = std::min(n, 3);
                std::vector<int> p(static_cast<size_t>(pre), 0);
                do {
                    std::string head;
                    for (int x : p)
                        head += A[static_cast<size_t>(x)];
                    if (!take([=] { return strf("%s all %d-byte files starting with '", fmt_name[f], n) + show(head) + "'"; }))
                        continue;
                    std::vector<int> d(static_cast<size_t>(n - pre), 0);
                    do {
                        std::string s = head;
                        for (int x : d)
                            s += A[static_cast<size_t>(x)];
                        check_robust(f, s, announces_more(f, s), "short file");
                    } while (odo(d, static_cast<int>(A.size())));
                } while (odo(p, static_cast<int>(A.size())));
            }
        // line-level: every file of up to k lines from a pool, after a valid header
        struct Pool {
            int                      f;
            std::string              head;
            std::vector<std::string> lines;
            int                      depth;
        };
        std::vector<Pool> pools = {
            {0, "2 2\n", {"1 1 1\n", "1 1 2\n", "1 2 1 2\n", "1 2 2 2\n", "1 0\n", "1 1 0\n", "1 1 3\n", "\n", "1\n", "1 1 1"}, 4},
            {2, "2 2\n", {"1 1 0\n", "1 1 1\n", "1 1 0 1\n", "1 1 1 1\n", "1 1\n", "1 1 -1\n", "1 1 2\n", "\n", "0 1\n", "0\n", "2\n", "-1\n", "1 0 1\n", "0 1"}, 4},
            {1, "2 2\n", {"1 1\n", "1\n", "2\n", "1 2\n", "2 2\n", "0\n", "3\n", "-1\n", "\n", "1 1"}, 6},
            {3, "", {"NAME x\n", "ROWS\n", " N obj\n", " G r1\n", " G r2\n", "COLUMNS\n", " a obj 1 r1 1\n", " b obj 1 r2 1\n", " a r1 1\n", " b r9 1\n", " c obj 2\n", " c obj 2 r1\n", " a obj\n", "RHS\n", " N\n", "\n", "RHS"}, 5},
        };
        for (auto const& p : pools) {
            int const depth = p.depth + (thorough() ? 1 : 0);
            int const base  = static_cast<int>(p.lines.size());
            for (int n = 0; n <= depth; ++n) {
                int const        pre = std::min(n, 2);
                std::vector<int> q(static_cast<size_t>(pre), 0);
                do {
                    std::string head = p.head;
                    for (int x : q)
                        head += p.lines[static_cast<size_t>(x)];
                    if (!take([=] { return strf("%s all files of %d lines starting with ", fmt_name[p.f], n) + show(head); }))
                        continue;
                    std::vector<int> d(static_cast<size_t>(n - pre), 0);
                    do {
                        std::string s = head;
                        for (int x : d)
                            s += p.lines[static_cast<size_t>(x)];
                        check_robust(p.f, s, announces_more(p.f, s), "lines");
                    } while (odo(d, base));
                } while (odo(q, base));
            }
        }
        // complete MPS skeletons with every line sequence in the two sections
        std::vector<std::string> rl = {" N obj\n", " G r1\n", " G r2\n", " N\n", " G\n", "\n", " X y\n"};
        std::vector<std::string> cl = {" a obj 1 r1 1\n", " b obj 1 r2 1\n", " a r1 1 r2 1\n", " a r9 1\n", " b obj 2\n", " b obj 2 r1\n", " a obj\n", " a r1 x\n", " a obj x\n", " b r2 1\n", "\n", " a r1 1 obj 3\n"};
        int const rd = 3, cd = thorough() ? 4 : 3;
        for (int a = 0; a <= rd; ++a) {
            std::vector<int> q(static_cast<size_t>(a), 0);
            do {
                std::string head = "NAME x\nROWS\n";
                for (int x : q)
                    head += rl[static_cast<size_t>(x)];
                head += "COLUMNS\n";
                if (!take([=] { return "MPS skeleton, all columns after " + show(head); }))
                    continue;
                for (int b = 0; b <= cd; ++b) {
                    std::vector<int> d(static_cast<size_t>(b), 0);
                    do {
                        std::string s = head;
                        for (int x : d)
                            s += cl[static_cast<size_t>(x)];
                        check_robust(3, s + "RHS\nENDATA\n", false, "MPS sections");
                    } while (odo(d, static_cast<int>(cl.size())));
                }
            } while (odo(q, static_cast<int>(rl.size())));
        }
    } else {
        // starting-solution files
        Inst in;
        in.nrows = 3;
        in.cols  = {{0, 1}, {1, 2}, {0, 2}, {0, 1, 2}};
        in.costs = {1, 1, 1, 2.5};
        std::string const inst = to_rail(in, Layout());
        auto              one  = [&](std::string const& s, char const* how) {
            for (int u = 0; u < 2; ++u) {
                if (!take([=] { return strf("solution file, %s%s: ", how, u ? " (unit costs)" : "") + show(s); }))
                    continue;
                gfile->set(inst);
                gsol->set(s);
                transition();
                std::string e;
                try {
                    auto env           = quiet_env(0);
                    env.initsol_path   = gsol->path;
                    env.use_unit_costs = u != 0;
                    auto d             = cft::parse_inst_and_initsol(env);
                    e                  = unsound(d.inst);
                    if (e.empty())
                        e = bad_initsol(d.inst, d.init_sol);
                    if (e.empty() && d.init_sol.idxs.empty())
                        e = "an empty starting solution is accepted";
                    count("accepted");
                    uint64_t h = mix(3, d.init_sol.idxs.size());
                    for (auto j : d.init_sol.idxs)
                        h = mix(h, static_cast<uint64_t>(j));
                    state(h);
                } catch (std::exception const& ex) {
                    count("rejected");
                    state(hash_bytes(ex.what(), strlen(ex.what()), 77));
                }
                MC_CHECK(e.empty(), "starting solution, %s: %s; file: %s", how, e.c_str(), show(s).c_str());
                validated();
            }
        };
        for (auto b : {"2 0 1", "2.5 3\n", "3.5 3 0\n", "3 0 1 2"})
            mutations(b, one);
        std::string const A   = "0123 .-";
        int const         len = thorough() ? 7 : 5;
        for (int n = 0; n <= len; ++n) {
            std::vector<int> d(static_cast<size_t>(n), 0);
            do {
                std::string s;
                for (int x : d)
                    s += A[static_cast<size_t>(x)];
                one(s, "short file");
            } while (odo(d, static_cast<int>(A.size())));
        }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    MemFile a, b;
    gfile = &a;
    gsol  = &b;
#if PROP == 19
    run_c19();
#else
    run_c20();
#endif
    return finish();
}
