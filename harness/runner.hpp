// Monitor runtime: case scheduling, crash isolation, heap accounting, violation records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mon {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }
    bool chance(int percent) { return below(100) < uint64_t(percent); }
    template<typename C> auto& pick(C& c) { return c[below(c.size())]; }
    // weighted choice
    int weighted(const std::vector<int>& w)
    {
        int t = 0;
        for (int x : w) { t += x; }
        int r = int(below(uint64_t(t)));
        for (size_t i = 0; i < w.size(); ++i) { if ((r -= w[i]) < 0) { return int(i); } }
        return 0;
    }
};

inline uint64_t mix64(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL));
    return r.next() ^ b;
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
    return h;
}

// Thrown by monitors: the observed behaviour differs from the specification.
struct Violation
{
    std::string key;    // stable identification of what failed
    std::string detail; // human readable
};

// Per-case context handed to workloads.
struct Case
{
    Rng rng;
    uint64_t seed;
    std::string workload;
    uint64_t index;
    explicit Case(uint64_t s) : rng(s), seed(s), index(0) {}
    uint64_t sig = 0;           // structural signature for distinct counting
    bool nontrivial = false;
    int violations = 0;

    void fail(const std::string& key, const std::string& detail);   // records and continues
    [[noreturn]] void die(const std::string& key, const std::string& detail) // records and aborts this case
    {
        throw Violation{key, detail};
    }
    void note(const std::string& op);           // trace of operations (kept in shared memory, survives crashes)
    void count(const char* name, uint64_t n = 1); // monitored event counter
    void see(uint64_t h) { sig = mix64(sig, h); }
    bool want_trace = false;
    // a case that runs in a thread of its own: nothing is shared with the runner
    bool local = false;
    std::string log, failure;
    std::map<std::string, uint64_t> counts;
    std::function<void()> tick;                 // called at every note of a local case
};

// ------------------------------------------------------------------ heap accounting
struct HeapStats { int64_t live_bytes; uint64_t allocs; uint64_t frees; uint64_t bytes; };
HeapStats heap();                       // process totals (this thread is the only user)
void heap_log_begin();                  // start recording sizes of allocations
std::vector<size_t> heap_log_end();
void heap_limit(size_t max_single);     // abort the process if one allocation exceeds this (0 = off)

// ------------------------------------------------------------------ workloads
using WorkFn = void (*)(Case&);
struct Workload { const char* name; WorkFn fn; bool leak_check; bool probe; };
std::vector<Workload>& registry();
struct Register
{
    Register(const char* n, WorkFn f, bool leak_check = true, bool probe = false)
    {
        registry().push_back({n, f, leak_check, probe});
    }
};
#define MON_WORKLOAD(name) static void wl_##name(mon::Case& c); \
    static mon::Register reg_##name(#name, wl_##name); \
    static void wl_##name([[maybe_unused]] mon::Case& c)
#define MON_WORKLOAD_NOLEAK(name) static void wl_##name(mon::Case& c); \
    static mon::Register reg_##name(#name, wl_##name, false); \
    static void wl_##name([[maybe_unused]] mon::Case& c)
// deterministic directed case (executed once per run)
#define MON_PROBE(name) static void wl_##name(mon::Case& c); \
    static mon::Register reg_##name("probe_" #name, wl_##name, true, true); \
    static void wl_##name([[maybe_unused]] mon::Case& c)

template<typename... A>
std::string cat(const A&... a)
{
    std::ostringstream os;
    (void)std::initializer_list<int>{((os << a), 0)...};
    return os.str();
}

} // namespace mon
