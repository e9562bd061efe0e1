// Common runtime of the exhaustive-exploration harnesses.
//
// A harness enumerates *cases* (executions of the real code) in a fixed, deterministic order. Cases
// are numbered; with --nshards n --shard k only the cases with number % n == k are executed; with
// --case N only case N is executed (replay). The number of the case being executed lives in an
// mmapped slot file so that the driver knows which execution crashed or hung.
#ifndef MC_HPP
#define MC_HPP
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace mc {

struct Slot {
    volatile uint64_t case_id;
    volatile uint64_t done;
    volatile uint64_t ticks;
    volatile uint64_t hang;
};

struct Runtime {
    uint64_t    shard = 0, nshards = 1;
    int64_t     only  = -1;
    uint64_t    group = 1;  // consecutive cases kept on the same shard
    bool        thorough = false;
    uint64_t    seed     = 0;
    uint64_t    next_id  = 0;   // number of the next case
    uint64_t    cur      = 0;   // current case
    uint64_t    executed = 0;   // cases executed by this shard
    uint64_t    transitions = 0;
    uint64_t    validated   = 0;
    uint64_t    fails       = 0;
    uint64_t    max_hang_s  = 20;
    uint64_t*   bitmap      = nullptr;  // shared: distinct states
    uint64_t    bitmap_bits = 0;
    Slot*       slot        = nullptr;
    Slot        dummy_slot  = {};
    std::map<std::string, uint64_t> counters;
    std::vector<std::string>        samples;
    std::function<std::string()>    desc;  // description of the current case
    FILE*       out = nullptr;             // protocol channel to the driver
    std::map<std::string, std::string> args;
};

inline Runtime& rt() {
    static Runtime r;
    return r;
}

inline bool thorough() {
    return rt().thorough;
}

inline void on_tick(int) {
    auto&           r = rt();
    static uint64_t last_case = ~0ULL, same = 0;
    uint64_t const  c = r.slot->case_id;
    same              = (c == last_case) ? same + 1 : 0;
    last_case         = c;
    r.slot->ticks     = same;
    if (same >= r.max_hang_s) {
        r.slot->hang = 1;
        _exit(97);
    }
}

inline std::string esc(std::string const& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += static_cast<char>(c);
    }
    return o;
}

inline void init(int argc, char** argv) {
    auto& r      = rt();
    r.slot       = &r.dummy_slot;
    char const* slot_path = nullptr;
    char const* bm_path   = nullptr;
    char const* out_path  = nullptr;
    for (int a = 1; a + 1 < argc; a += 2) {
        std::string k = argv[a], v = argv[a + 1];
        if (k == "--shard")
            r.shard = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--nshards")
            r.nshards = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--case")
            r.only = strtoll(v.c_str(), nullptr, 10);
        else if (k == "--tier")
            r.thorough = v == "thorough";
        else if (k == "--seed")
            r.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--slot")
            slot_path = argv[a + 1];
        else if (k == "--bitmap")
            bm_path = argv[a + 1];
        else if (k == "--out")
            out_path = argv[a + 1];
        else if (k == "--hang")
            r.max_hang_s = strtoull(v.c_str(), nullptr, 10);
        else
            r.args[k] = v;
    }
    r.out = out_path ? fopen(out_path, "w") : fdopen(dup(1), "w");
    if (slot_path) {
        int fd = open(slot_path, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096) != 0)
            abort();
        void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        r.slot  = static_cast<Slot*>(p);
        close(fd);
    }
    if (bm_path) {
        int         fd = open(bm_path, O_RDWR);
        struct stat st;
        if (fd < 0 || fstat(fd, &st) != 0)
            abort();
        r.bitmap_bits = static_cast<uint64_t>(st.st_size) * 8;
        void* p       = mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        r.bitmap      = static_cast<uint64_t*>(p);
        close(fd);
    }
    r.slot->case_id = ~0ULL;
    // CPU-time watchdog: one tick per second of CPU time consumed by this process, so that a loaded
    // machine cannot turn a slow case into a reported hang.
    signal(SIGVTALRM, on_tick);
    struct itimerval tv;
    tv.it_interval.tv_sec  = 1;
    tv.it_interval.tv_usec = 0;
    tv.it_value            = tv.it_interval;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

inline std::string arg(char const* k, char const* def = "") {
    auto it = rt().args.find(k);
    return it == rt().args.end() ? def : it->second;
}

inline void count_max(char const* name, uint64_t n) {
    uint64_t& c = rt().counters[name];
    if (n > c)
        c = n;
}

// Starts a new case; true if it must be executed here. `d` describes it (called only on demand).
template <typename D>
inline bool take(D d) {
    auto&          r  = rt();
    uint64_t const id = r.next_id++;
    if (r.only >= 0 ? id != static_cast<uint64_t>(r.only) : (id / r.group) % r.nshards != r.shard)
        return false;
    r.cur           = id;
    r.slot->case_id = id;
    r.executed++;
    r.desc = d;
    if (r.only >= 0) {
        fprintf(r.out, "{\"case\": %llu, \"desc\": \"%s\"}\n", (unsigned long long)id, esc(d()).c_str());
        fflush(r.out);
    } else if (r.samples.size() < 2 && (r.executed == 1 || r.executed % 997 == 0))
        r.samples.push_back(d());
    return true;
}

// true if case numbers in [next_id, next_id+n) contain nothing for this shard/replay; skips them.
inline bool skip_block(uint64_t n) {
    auto& r = rt();
    if (r.only >= 0 &&
        (static_cast<uint64_t>(r.only) < r.next_id || static_cast<uint64_t>(r.only) >= r.next_id + n)) {
        r.next_id += n;
        return true;
    }
    return false;
}

inline void transition(uint64_t n = 1) {
    rt().transitions += n;
}

inline void validated(uint64_t n = 1) {
    rt().validated += n;
}

inline void count(char const* name, uint64_t n = 1) {
    rt().counters[name] += n;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}

inline uint64_t hash_bytes(void const* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    auto const* c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ULL;
    return mix(h, n);
}

// Registers a reached state (distinct ones are counted in a bitmap shared by all shards, so the
// reported number is a lower bound of the number of distinct states).
inline void state(uint64_t h) {
    auto& r = rt();
    if (!r.bitmap)
        return;
    h            = mix(h, 0x1234567);
    uint64_t bit = h % r.bitmap_bits;
    auto*    w   = reinterpret_cast<std::atomic<uint64_t>*>(r.bitmap + bit / 64);
    uint64_t m   = 1ULL << (bit % 64);
    if (!(w->load(std::memory_order_relaxed) & m))
        w->fetch_or(m, std::memory_order_relaxed);
}

int finish();

inline void fail(std::string const& what) {
    auto& r = rt();
    if (r.fails < 5) {
        fprintf(r.out,
                "{\"violation\": %llu, \"what\": \"%s\", \"desc\": \"%s\"}\n",
                (unsigned long long)r.cur,
                esc(what).c_str(),
                r.desc ? esc(r.desc()).c_str() : "");
        fflush(r.out);
    }
    r.fails++;
    if (r.fails >= 20)
        exit(finish());
}

#define MC_CHECK(cond, ...)                          \
    do {                                             \
        if (!(cond))                                 \
            ::mc::fail(::mc::strf(__VA_ARGS__));     \
    } while (0)

inline std::string strf(char const* f, ...) {
    char    b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

inline int finish() {
    auto& r = rt();
    r.slot->case_id = ~0ULL;
    r.slot->done    = 1;
    fprintf(r.out,
            "{\"stats\": {\"total_cases\": %llu, \"executed\": %llu, \"transitions\": %llu, \"validated\": %llu, \"fails\": %llu",
            (unsigned long long)r.next_id,
            (unsigned long long)r.executed,
            (unsigned long long)r.transitions,
            (unsigned long long)r.validated,
            (unsigned long long)r.fails);
    fprintf(r.out, ", \"counters\": {");
    bool first = true;
    for (auto& kv : r.counters) {
        fprintf(r.out, "%s\"%s\": %llu", first ? "" : ", ", kv.first.c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(r.out, "}, \"samples\": [");
    first = true;
    for (auto& s : r.samples) {
        fprintf(r.out, "%s\"%s\"", first ? "" : ", ", esc(s).c_str());
        first = false;
    }
    fprintf(r.out, "]}}\n");
    fflush(r.out);
    return r.fails ? 1 : 0;
}

// Depth-first enumeration of all choice sequences (stateless exploration).
//   mc::Choices c;
//   do { body(c); } while (c.next());
struct Choices {
    std::vector<int> path, width;
    size_t           pos = 0;

    int choose(int n) {
        if (pos < path.size()) {
            if (width[pos] != n) {
                fprintf(stderr, "mc: replay divergence at choice %zu: %d vs %d\n", pos, width[pos], n);
                _exit(95);
            }
            return path[pos++];
        }
        path.push_back(0);
        width.push_back(n);
        pos++;
        return 0;
    }

    bool next() {
        pos = 0;
        while (!path.empty()) {
            if (++path.back() < width.back())
                return true;
            path.pop_back();
            width.pop_back();
        }
        return false;
    }
};

// Odometer over digits with the given bases. Returns false after the last one.
inline bool odo(std::vector<int>& d, int base) {
    for (size_t i = d.size(); i-- > 0;) {
        if (++d[i] < base)
            return true;
        d[i] = 0;
    }
    return false;
}

}  // namespace mc
#endif
