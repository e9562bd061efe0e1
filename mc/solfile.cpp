// C21: solutions survive writing and reading; every way the write can fail is reported.
// The write(2)/writev(2)/close(2) calls of the stream library are interposed: the failure point is
// enumerated over every byte and every kind of fault.
#include <dlfcn.h>
#include <errno.h>
#include <sys/resource.h>
#include <sys/uio.h>

#include <stdexcept>

#include "cftio.hpp"
#include "core/parsing.hpp"
#include "filegen.hpp"

using namespace mc;

namespace fault {
static int      watched = -1;     // only calls on this file count (found by path)
static bool     armed   = false;
static long     limit   = -1;     // bytes accepted before the fault
static int      kind    = 0;      // 0: errno err; 1: short write then go on; 2: EINTR once then go on; 3: close fails
static int      err     = ENOSPC;
static long     written = 0;
static bool     fired   = false;

static void arm(int k, long lim, int e) {
    armed   = true;
    kind    = k;
    limit   = lim;
    err     = e;
    written = 0;
    fired   = false;
}
}  // namespace fault

template <typename F>
static F real(char const* n) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}

static bool is_target(int fd) {
    char        l[256], p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, l, sizeof l - 1);
    if (n <= 0)
        return false;
    l[n] = 0;
    return strstr(l, "mc-target") != nullptr;
}

extern "C" ssize_t write(int fd, void const* b, size_t n) {
    static auto r = real<ssize_t (*)(int, void const*, size_t)>("write");
    if (!fault::armed || !is_target(fd))
        return r(fd, b, n);
    using namespace fault;
    transition();
    if (written + static_cast<long>(n) <= limit || (kind == 3) || (kind != 0 && fired)) {
        ssize_t w = r(fd, b, n);
        written += w;
        return w;
    }
    fired = true;
    if (kind == 2) {
        errno = EINTR;
        return -1;
    }
    long room = limit - written;
    if (room > 0) {
        ssize_t w = r(fd, b, static_cast<size_t>(room));
        written += w;
        return w;
    }
    if (kind == 1) {  // nothing accepted yet: a short write of one byte
        ssize_t w = r(fd, b, 1);
        written += w;
        return w;
    }
    errno = err;
    return -1;
}

extern "C" ssize_t writev(int fd, struct iovec const* v, int c) {
    static auto r = real<ssize_t (*)(int, struct iovec const*, int)>("writev");
    if (!fault::armed || !is_target(fd))
        return r(fd, v, c);
    // one element at a time; a partial result is a legal outcome of writev
    ssize_t tot = 0;
    for (int k = 0; k < c; ++k) {
        if (v[k].iov_len == 0)
            continue;
        ssize_t w = write(fd, v[k].iov_base, v[k].iov_len);
        if (w < 0)
            return tot > 0 ? tot : -1;
        tot += w;
        if (static_cast<size_t>(w) < v[k].iov_len)
            return tot;
    }
    return tot;
}

extern "C" int close(int fd) {
    static auto r = real<int (*)(int)>("close");
    if (fault::armed && fault::kind == 3 && is_target(fd)) {
        fault::fired = true;
        r(fd);
        errno = EIO;
        return -1;
    }
    return r(fd);
}
extern "C" int fclose(FILE* f) {
    static auto r = real<int (*)(FILE*)>("fclose");
    if (fault::armed && fault::kind == 3 && is_target(fileno(f))) {
        fault::fired = true;
        r(f);
        errno = EIO;
        return EOF;
    }
    return r(f);
}

static std::string path;

static std::string slurp() {
    std::string s;
    int         fd = open(path.c_str(), O_RDONLY);
    char        b[4096];
    ssize_t     n;
    while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0)
        s.append(b, static_cast<size_t>(n));
    if (fd >= 0)
        close(fd);
    return s;
}

static cft::Solution mk(double cost, std::vector<long long> const& v) {
    cft::Solution s;
    s.cost = static_cast<cft::real_t>(cost);
    for (auto j : v)
        s.idxs.push_back(static_cast<cft::cidx_t>(j));
    return s;
}

static std::string sol_str(cft::Solution const& s) {
    std::string o = strf("cost %.17g, %zu columns", static_cast<double>(s.cost), s.idxs.size());
    for (size_t k = 0; k < s.idxs.size() && k < 8; ++k)
        o += " " + std::to_string(static_cast<long long>(s.idxs[k]));
    return o;
}

static void roundtrip(cft::Solution const& s) {
    transition();
    try {
        cft::write_solution(path, s);
        auto r = cft::parse_solution(path);
        MC_CHECK(r.idxs == s.idxs, "columns changed by writing and reading (%s), file '%s'", sol_str(s).c_str(), show(slurp()).c_str());
        MC_CHECK(r.cost == s.cost, "cost %.17g became %.17g", static_cast<double>(s.cost), static_cast<double>(r.cost));
        state(hash_bytes(&s.cost, sizeof(float), mix(5, s.idxs.size())));
        validated();
    } catch (std::exception const& e) {
        fail(strf("writing and reading back %s failed: %s", sol_str(s).c_str(), e.what()));
    }
}

static void run_round() {
    long long const M   = 2147483647LL;
    long long const v[] = {0, 1, 9, 10, 99, 100, 123456, 999999999, 1000000000, M - 1, M};
    double const    c[] = {0, 1, 0.1, 429, 1.0 / 3, 16777215, 1e-30, 3e38, 123456.789};
    // all index lists up to length 3 over the boundary values
    for (double x : c)
        for (int n = 0; n <= 3; ++n) {
            if (!take([=] { return strf("cost %g, all lists of %d indexes", x, n); }))
                continue;
            std::vector<int> d(static_cast<size_t>(n), 0);
            do {
                std::vector<long long> l;
                for (int k : d)
                    l.push_back(v[k]);
                roundtrip(mk(x, l));
            } while (odo(d, static_cast<int>(sizeof v / sizeof *v)));
        }
    // every float pattern of the upper bits (sign, exponent, leading mantissa), two fillings of the rest
    int const lowbits = thorough() ? 12 : 16;
    for (uint32_t hi = 0; hi < 256; ++hi) {
        if (!take([=] { return strf("all costs with float pattern 0x%02x......, low %d bits at two settings", hi, lowbits); }))
            continue;
        for (uint32_t mid = 0; mid < (1u << (24 - lowbits)); ++mid)
            for (uint32_t low : {0u, (1u << lowbits) - 1u, 0x5a5a5a5au & ((1u << lowbits) - 1u)}) {
                uint32_t b = (hi << 24) | (mid << lowbits) | low;
                float    x;
                memcpy(&x, &b, 4);
                // the largest finite value stands for "no solution" in the library: not a cost
                if (!std::isfinite(x) || std::fabs(x) == 3.40282347e+38F)
                    continue;
                cft::Solution s;
                s.cost = x;
                s.idxs = {7, 3};
                roundtrip(s);
            }
    }
    // long lists: around the stream buffer, and much longer; over an existing longer file
    for (int n : {100, 1000, 4094, 4095, 4096, 8192, 100000}) {
        if (!take([=] { return strf("%d columns", n); }))
            continue;
        std::vector<long long> l;
        for (int k = 0; k < n; ++k)
            l.push_back((k * 7919LL) % 63009);
        roundtrip(mk(12345.5, l));
        roundtrip(mk(1, {}));
        roundtrip(mk(2, {5}));
    }
}

static std::string expect_text(cft::Solution const& s) {
    fault::armed = false;
    cft::write_solution(path, s);
    return slurp();
}

static void run_fault() {
    std::vector<cft::Solution> sols = {mk(0, {}), mk(1, {0}), mk(101.5, {1, 2, 3, 4, 5, 6, 7, 8, 9}), mk(3.25, {123456, 7, 2147483647LL})};
    for (int n : {2045, 2046, 2047, 2600}) {  // 8 KiB stream buffer: outputs around it and above it
        std::vector<long long> l;
        for (int k = 0; k < n; ++k)
            l.push_back(100 + k % 900);
        sols.push_back(mk(17, l));
    }
    if (thorough()) {
        std::vector<long long> l;
        for (int k = 0; k < 9000; ++k)
            l.push_back(1000 + k % 9000);
        sols.push_back(mk(17, l));
    }
    int const errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
    for (size_t si = 0; si < sols.size(); ++si) {
        auto const&       s   = sols[si];
        std::string const ref = expect_text(s);
        long const        len = static_cast<long>(ref.size());
        auto              one = [&](int kind, long lim, int e, bool must_throw) {
            transition();
            unlink(path.c_str());
            bool        threw = false;
            std::string msg;
            fault::arm(kind, lim, e);
            try {
                cft::write_solution(path, s);
            } catch (std::exception const& ex) {
                threw = true;
                msg   = ex.what();
            }
            fault::armed = false;
            count(threw ? "reported" : "completed");
            state(mix(mix(mix(si, static_cast<uint64_t>(lim)), static_cast<uint64_t>(kind)), threw));
            if (must_throw)
                MC_CHECK(threw, "write fails after %ld of %ld bytes (fault kind %d, errno %d) but no error is raised", lim, len, kind, e);
            else
                MC_CHECK(!threw && slurp() == ref, "write completes after an interruption at byte %ld of %ld (kind %d), result: %s '%s'", lim, len, kind, threw ? "error" : "file", threw ? msg.c_str() : show(slurp()).c_str());
            validated();
        };
        long const chunk = 256;
        for (long b = 0; b <= len; b += chunk) {
            if (!take([=] { return strf("solution %zu (%ld bytes): every fault at bytes %ld..", si, len, b); }))
                continue;
            for (long lim = b; lim < std::min(b + chunk, len); ++lim) {
                for (int e : errs)
                    one(0, lim, e, true);
                one(1, lim, 0, false);
                one(2, lim, 0, false);
            }
        }
        if (take([=] { return strf("solution %zu: close fails; no fault", si); })) {
            one(3, 0, EIO, true);
            one(0, len, ENOSPC, false);
        }
        // the same with the real limit of the kernel on the file size
        if (take([=] { return strf("solution %zu: RLIMIT_FSIZE at every byte", si); })) {
            signal(SIGXFSZ, SIG_IGN);
            for (long lim = 0; lim <= len; ++lim) {
                struct rlimit rl, old;
                getrlimit(RLIMIT_FSIZE, &old);
                rl          = old;
                rl.rlim_cur = static_cast<rlim_t>(lim);
                unlink(path.c_str());
                bool threw = false;
                setrlimit(RLIMIT_FSIZE, &rl);
                try {
                    cft::write_solution(path, s);
                } catch (std::exception const&) {
                    threw = true;
                }
                setrlimit(RLIMIT_FSIZE, &old);
                transition();
                MC_CHECK(threw == (lim < len), "file size limited to %ld of %ld bytes: %s", lim, len, threw ? "error raised" : "no error");
                validated();
            }
        }
    }
    // places that cannot be written at all
    std::string const dir = path + ".d";
    mkdir(dir.c_str(), 0700);
    for (auto const& p : {std::string("/dev/full"), dir, dir + "/missing/x.sol", std::string(""), dir + "/" + std::string(300, 'n')}) {
        if (!take([=] { return "writing to '" + p.substr(p.size() > 60 ? p.size() - 60 : 0) + "'"; }))
            continue;
        for (auto const& s : sols) {
            bool threw = false;
            transition();
            try {
                cft::write_solution(p, s);
            } catch (std::exception const&) {
                threw = true;
            }
            MC_CHECK(threw, "no error writing a solution to %s", p.c_str());
            validated();
        }
    }
    if (take([=] { return std::string("no file descriptor left"); })) {
        struct rlimit rl, old;
        getrlimit(RLIMIT_NOFILE, &old);
        rl          = old;
        rl.rlim_cur = 0;
        setrlimit(RLIMIT_NOFILE, &rl);
        bool threw = false, threw2 = false;
        try {
            cft::write_solution(path, sols[1]);
        } catch (std::exception const&) {
            threw = true;
        }
        try {
            (void)cft::parse_solution(path);
        } catch (std::exception const&) {
            threw2 = true;
        }
        setrlimit(RLIMIT_NOFILE, &old);
        transition(2);
        MC_CHECK(threw && threw2, "no error although no file can be opened");
        validated();
    }
    rmdir(dir.c_str());
}

int main(int argc, char** argv) {
    init(argc, argv);
    char const* d = getenv("MC_SCRATCH");
    path          = std::string(d ? d : ".") + "/mc-target-" + std::to_string(getpid());
    if (arg("--mode") == "round")
        run_round();
    else
        run_fault();
    unlink(path.c_str());
    return finish();
}
