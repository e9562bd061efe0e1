// Files in memory, reference writers for the four instance formats, and their layouts.
#ifndef MC_FILEGEN_HPP
#define MC_FILEGEN_HPP
#include <fcntl.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "inst.hpp"

namespace mc {

// A scratch file in the driver's scratch directory (on tmpfs; removed by the driver).
struct MemFile {
    int         fd;
    std::string path;

    MemFile() {
        static int n = 0;
        char const* d = getenv("MC_SCRATCH");
        path          = std::string(d ? d : ".") + "/mc-file-" + std::to_string(getpid()) + "-" + std::to_string(n++);
        fd           = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0)
            abort();
    }

    ~MemFile() {
        close(fd);
        unlink(path.c_str());
    }

    void set(std::string const& s) {
        if (ftruncate(fd, 0) != 0)
            abort();
        for (size_t o = 0; o < s.size();) {
            ssize_t n = pwrite(fd, s.data() + o, s.size() - o, static_cast<off_t>(o));
            if (n <= 0)
                abort();
            o += static_cast<size_t>(n);
        }
    }

    std::string get() const {
        std::string s;
        char        b[4096];
        ssize_t     n;
        while ((n = pread(fd, b, sizeof b, static_cast<off_t>(s.size()))) > 0)
            s.append(b, static_cast<size_t>(n));
        return s;
    }
};

inline std::string show(std::string const& s) {
    std::string o;
    for (unsigned char c : s.size() > 700 ? s.substr(0, 700) : s)
        if (c == '\n')
            o += "\\n";
        else if (c == '\r')
            o += "\\r";
        else if (c == '\t')
            o += "\\t";
        else if (c < 0x20 || c >= 0x7f)
            o += strf("\\x%02x", c);
        else
            o += static_cast<char>(c);
    return o;
}

// Layout knobs of the column-oriented formats.
struct Layout {
    char const* eol     = "\n";
    char const* sep     = " ";
    char const* lead    = "";
    char const* trail   = "";
    bool        last_nl = true;
    int         wrap    = 0;       // SCP: values per line (0: all on one line)
    int         numfmt  = 0;       // how costs are written
    bool        reverse = false;   // order of the entries inside a row/column

    std::string str() const {
        return strf("eol=%s sep='%s' lead='%s' trail='%s' last_nl=%d wrap=%d num=%d rev=%d",
                    show(eol).c_str(), show(sep).c_str(), show(lead).c_str(), show(trail).c_str(), last_nl, wrap, numfmt, reverse);
    }
};

inline std::string num(double x, int fmt) {
    switch (fmt) {
    case 1:
        return strf("%.10f", x);
    case 2:
        return strf("%.12e", x);
    case 3:
        return strf("+%.9g", x);
    case 4: {
        std::string s = strf("%.9g", x);  // ".5" instead of "0.5"
        return s.size() > 1 && s[0] == '0' && s[1] == '.' ? s.substr(1) : s;
    }
    default:
        return strf("%.9g", x);
    }
}

struct Lines {
    Layout      l;
    std::string out;
    bool        first = true;

    explicit Lines(Layout const& x)
        : l(x) { }

    void line(std::string const& s) {
        if (!first)
            out += l.eol;
        first = false;
        out += l.lead + s + l.trail;
    }

    std::string done() {
        if (l.last_nl)
            out += l.eol;
        return out;
    }
};

template <typename T>
std::vector<T> maybe_rev(std::vector<T> v, bool r) {
    if (r)
        std::reverse(v.begin(), v.end());
    return v;
}

inline std::string join(std::vector<std::string> const& v, std::string const& sep) {
    std::string s;
    for (size_t k = 0; k < v.size(); ++k)
        s += (k ? sep : "") + v[k];
    return s;
}

inline std::string to_rail(Inst const& in, Layout const& l) {
    Lines L(l);
    L.line(std::to_string(in.nrows) + l.sep + std::to_string(in.cols.size()));
    for (size_t j = 0; j < in.cols.size(); ++j) {
        std::vector<std::string> t = {num(in.costs[j], l.numfmt), std::to_string(in.cols[j].size())};
        for (int i : maybe_rev(in.cols[j], l.reverse))
            t.push_back(std::to_string(i + 1));
        L.line(join(t, l.sep));
    }
    return L.done();
}

inline std::string to_scp(Inst const& in, Layout const& l) {
    Lines L(l);
    L.line(std::to_string(in.nrows) + l.sep + std::to_string(in.cols.size()));
    auto wrapped = [&](std::vector<std::string> const& t) {
        size_t w = l.wrap > 0 ? static_cast<size_t>(l.wrap) : t.size();
        for (size_t k = 0; k < t.size(); k += w)
            L.line(join({t.begin() + static_cast<long>(k), t.begin() + static_cast<long>(std::min(t.size(), k + w))}, l.sep));
    };
    std::vector<std::string> t;
    for (double c : in.costs)
        t.push_back(num(c, l.numfmt));
    wrapped(t);
    for (int i = 0; i < in.nrows; ++i) {
        std::vector<int> js;
        for (size_t j = 0; j < in.cols.size(); ++j)
            for (int r : in.cols[j])
                if (r == i)
                    js.push_back(static_cast<int>(j) + 1);
        L.line(std::to_string(js.size()));
        t.clear();
        for (int j : maybe_rev(js, l.reverse))
            t.push_back(std::to_string(j));
        wrapped(t);
    }
    return L.done();
}

inline std::string to_cvrp(Inst const& in, Layout const& l, std::vector<int> const& sol) {
    Lines L(l);
    L.line(std::to_string(in.nrows) + l.sep + std::to_string(in.cols.size()));
    for (size_t j = 0; j < in.cols.size(); ++j) {
        std::vector<std::string> t = {num(in.costs[j], l.numfmt), num(in.costs[j] + (j % 3), l.numfmt)};
        for (int i : maybe_rev(in.cols[j], l.reverse))
            t.push_back(std::to_string(i));
        L.line(join(t, l.sep));
    }
    std::vector<std::string> t;
    for (int j : sol)
        t.push_back(std::to_string(j));
    if (!sol.empty())
        L.line(join(t, l.sep));
    return L.done();
}

struct MpsLayout {
    int              naming   = 0;      // how rows and columns are named
    std::vector<int> row_order;         // order in which the rows are declared
    int              obj_pos  = 0;      // 0: objective first among the rows, 1: last, 2: in the middle
    int              obj_in   = 0;      // objective entry of a column: 0 first, 1 last, 2 in the middle
    int              per_line = 2;      // entries per line
    int              row_type = 0;      // 0 G, 1 E, 2 L
    int              head     = 1;      // lines before ROWS
    int              tailkind = 0;      // 0: RHS+BOUNDS+ENDATA, 1: RHS+ENDATA, 2: bare RHS
    bool             marker   = false;  // integrality marker lines
    bool             sep_tab  = false;
    bool             crlf     = false;
    bool             blank    = false;  // blank lines inside the sections
    bool             last_nl  = true;
    int              numfmt   = 0;
    bool             skip_zero_obj = false;  // a column of cost zero has no objective entry
};

inline std::string mps_row(int naming, int i) {
    switch (naming) {
    case 1:
        return "R_" + std::to_string(100 - i);
    case 2:
        return std::to_string(i + 1);
    case 3:
        return std::string(static_cast<size_t>(i + 1), 'z');
    default:
        return "row" + std::to_string(i + 1);
    }
}

inline std::string mps_col(int naming, int j) {
    switch (naming) {
    case 1:
        return "C_" + std::to_string(100 - j);
    case 2:
        return std::to_string(j + 1);
    case 3:
        return std::string(static_cast<size_t>(j + 1), 'y');
    default:
        return "x" + std::to_string(j + 1);
    }
}

inline std::string mps_obj(int naming) {
    return naming == 2 ? "0" : naming == 3 ? "COST" : "obj";
}

inline std::string to_mps(Inst const& in, MpsLayout const& m) {
    std::string const eol = m.crlf ? "\r\n" : "\n";
    std::string const s   = m.sep_tab ? "\t" : "  ";
    std::string       o;
    auto              line = [&](std::string const& x) {
        o += x + eol;
        if (m.blank)
            o += eol;
    };
    if (m.head >= 1)
        line("NAME" + s + "inst");
    for (int k = 1; k < m.head; ++k)
        line("* comment " + std::to_string(k));
    line("ROWS");
    char const* types = "GEL";
    int const   n     = in.nrows;
    int const   at    = m.obj_pos == 0 ? 0 : m.obj_pos == 1 ? n : n / 2;
    for (int k = 0; k <= n; ++k) {
        if (k == at)
            line(" N" + s + mps_obj(m.naming));
        if (k < n)
            line(" " + std::string(1, types[m.row_type]) + s + mps_row(m.naming, m.row_order[static_cast<size_t>(k)]));
    }
    line("COLUMNS");
    if (m.marker)
        line("    MARKER" + s + "'MARKER'" + s + "'INTORG'");
    for (size_t j = 0; j < in.cols.size(); ++j) {
        std::vector<std::string> e;
        for (int i : in.cols[j])
            e.push_back(mps_row(m.naming, i) + s + (m.row_type == 2 ? "-1" : "1"));
        if (!(m.skip_zero_obj && in.costs[j] == 0))
            e.insert(m.obj_in == 0 ? e.begin() : m.obj_in == 1 ? e.end() : e.begin() + static_cast<long>(e.size() / 2),
                     mps_obj(m.naming) + s + num(in.costs[j], m.numfmt));
        for (size_t k = 0; k < e.size(); k += static_cast<size_t>(m.per_line)) {
            std::string t = "    " + mps_col(m.naming, static_cast<int>(j));
            for (size_t q = k; q < std::min(e.size(), k + static_cast<size_t>(m.per_line)); ++q)
                t += s + e[q];
            line(t);
        }
    }
    if (m.marker)
        line("    MARKER" + s + "'MARKER'" + s + "'INTEND'");
    line("RHS");
    if (m.tailkind < 2)
        for (int i = 0; i < n; ++i)
            line("    RHS" + s + mps_row(m.naming, i) + s + (m.row_type == 2 ? "-1" : "1"));
    if (m.tailkind == 0) {
        line("BOUNDS");
        for (size_t j = 0; j < in.cols.size(); ++j)
            line(" UP bnd" + s + mps_col(m.naming, static_cast<int>(j)) + s + "1");
    }
    if (m.tailkind < 2)
        line("ENDATA");
    if (!m.last_nl)
        while (!o.empty() && (o.back() == '\n' || o.back() == '\r'))
            o.pop_back();
    return o;
}

}  // namespace mc
#endif
