#include "runner.hpp"
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#if defined(__has_include) && !defined(MON_PLAIN)
#if __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#define HAVE_SAN_ALLOC 1
#endif
#endif

namespace mon {

static const size_t TRACE = 1 << 16;
struct Shared
{
    volatile uint64_t cur;          // index in the schedule
    volatile uint64_t beat;         // progress
    volatile uint64_t done;
    volatile uint64_t nontrivial;
    volatile uint32_t trace_len;
    char trace[TRACE];
};
static Shared* g_sh = nullptr;
static FILE* g_out = nullptr;       // violation records (append)
static FILE* g_sig = nullptr;       // signatures
static std::map<std::string, uint64_t> g_counts;
static bool g_echo = false;

std::vector<Workload>& registry()
{
    static std::vector<Workload> r;
    return r;
}

static std::string esc(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') { o += "\\n"; }
        else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else { o += char(ch); }
    }
    return o;
}

static void record(const char* kind, const std::string& wl, uint64_t index, uint64_t seed, const std::string& key,
        const std::string& detail)
{
    static int written = 0;
    if (++written > 400) { return; }    // enough evidence
    std::string trace;
    if (g_sh) { trace.assign(g_sh->trace, g_sh->trace_len); }
    if (trace.size() > 6000) { trace = "..." + trace.substr(trace.size() - 6000); }
    fprintf(g_out, "{\"kind\":\"%s\",\"workload\":\"%s\",\"index\":%llu,\"seed\":\"%llu\",\"key\":\"%s\",\"detail\":\"%s\",\"trace\":\"%s\"}\n",
        kind, wl.c_str(), (unsigned long long)index, (unsigned long long)seed, esc(key).c_str(), esc(detail.substr(0, 4000)).c_str(),
        esc(trace).c_str());
    fflush(g_out);
    if (g_echo) { fprintf(stderr, "VIOL [%s] %s/%llu key=%s\n  %s\n", kind, wl.c_str(), (unsigned long long)index, key.c_str(), detail.c_str()); }
}

void Case::fail(const std::string& key, const std::string& detail)
{
    ++violations;
    if (local) { if (failure.empty()) { failure = key + ": " + detail; } return; }
    if (violations <= 3) { record("oracle", workload, index, seed, key, detail); }
}

void Case::note(const std::string& op)
{
    if (local) { if (tick) { tick(); } log += op; log += '\n'; if (log.size() > 4000) { log.erase(0, 2000); } return; }
    if (g_echo) { fprintf(stderr, "  . %s\n", op.c_str()); }
    uint32_t l = g_sh->trace_len;
    if (l + op.size() + 2 >= TRACE)
    {
        // keep the newer half
        uint32_t keep = TRACE / 2;
        if (l > keep) { memmove(g_sh->trace, g_sh->trace + (l - keep), keep); l = keep; }
        if (l + op.size() + 2 >= TRACE) { g_sh->trace_len = l; return; }
    }
    memcpy(g_sh->trace + l, op.data(), op.size());
    l += uint32_t(op.size());
    g_sh->trace[l++] = '\n';
    g_sh->trace_len = l;
    ++g_sh->beat;
}

void Case::count(const char* name, uint64_t n) { if (local && tick) { tick(); } (local ? counts : g_counts)[name] += n; }

// ---- heap accounting
static volatile bool g_log_on = false;
static size_t g_log[4096];
static volatile size_t g_log_n = 0;
static uint64_t g_allocs = 0, g_frees = 0, g_bytes = 0;
static size_t g_limit = 0;
#ifdef HAVE_SAN_ALLOC
static void on_malloc(const volatile void*, size_t n)
{
    ++g_allocs; g_bytes += n;
    if (g_log_on && g_log_n < 4096) { g_log[g_log_n++] = n; }
    if (g_limit && n > g_limit)
    {
        const char m[] = "MON: OUTPUT-BOUND-EXCEEDED (unbounded memory growth)\n";
        ssize_t r = write(2, m, sizeof m - 1); (void)r;
        abort();
    }
}
static void on_free(const volatile void* p) { if (p) { ++g_frees; } }
#endif
HeapStats heap()
{
    HeapStats h{0, g_allocs, g_frees, g_bytes};
#ifdef HAVE_SAN_ALLOC
    h.live_bytes = int64_t(__sanitizer_get_current_allocated_bytes());
#endif
    return h;
}
void heap_log_begin() { g_log_n = 0; g_log_on = true; }
std::vector<size_t> heap_log_end()
{
    g_log_on = false;
    return std::vector<size_t>(g_log, g_log + g_log_n);
}
void heap_limit(size_t m) { g_limit = m; }

// ---- scheduling
struct Item { size_t wl; uint64_t index; };
static std::vector<Item> g_sched;
static uint64_t g_seed = 1;

static bool run_case_body(const Workload& w, Case& c)
{
    try { w.fn(c); }
    catch (const Violation& v) { c.fail(v.key, v.detail); }
    catch (const std::exception& e) { c.fail(std::string("unexpected-exception:") + w.name, e.what()); }
    catch (...) { c.fail(std::string("unexpected-exception:") + w.name, "non-std exception"); }
    return c.violations == 0;
}

static uint64_t case_seed(const Workload& w, uint64_t index)
{
    return mix64(mix64(g_seed, hash_str(w.name)), index);
}

static bool run_one(const Item& it, uint64_t& sig, bool& nontriv)
{
    const Workload& w = registry()[it.wl];
    int64_t before = 0, after = 0;
    bool ok = true;
    // A case is run once; if heap bytes differ it is repeated twice more (lazily initialised
    // process-wide state such as locale facets is legitimately allocated only once).
    for (int round = 0; round < 3; ++round)
    {
        g_sh->trace_len = 0;
        if (g_out) { fflush(g_out); }
        before = heap().live_bytes;
        {
            uint64_t s = case_seed(w, it.index);
            Case* c = new Case(s);
            c->workload = w.name;
            c->index = it.index;
            ok = run_case_body(w, *c);
            sig = mix64(c->sig, hash_str(w.name));
            nontriv = c->nontrivial;
            delete c;
        }
        after = heap().live_bytes;
        if (!ok || !w.leak_check || after == before) { return ok; }
    }
    // heap grew in three consecutive executions of the same case
    if (after > before)
    {
        record("leak", w.name, it.index, case_seed(w, it.index), cat("leak:", w.name),
            cat(after - before, " bytes still allocated after everything in the case was destroyed"));
        return false;
    }
    return ok;
}

static void child_main(uint64_t from)
{
    for (uint64_t i = from; i < g_sched.size(); ++i)
    {
        g_sh->cur = i;
        ++g_sh->beat;
        uint64_t sig = 0; bool nt = false;
        run_one(g_sched[i], sig, nt);
        if (nt)
        {
            ++g_sh->nontrivial;
            if (g_sig) { fwrite(&sig, 8, 1, g_sig); }
        }
        ++g_sh->done;
    }
}

static std::string slurp(const std::string& p)
{
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) { return ""; }
    std::string s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) { s.append(b, n); if (s.size() > (1 << 20)) break; }
    fclose(f);
    return s;
}

// Extract a stable key from a sanitizer report.
static std::string crash_key(const std::string& err, int status)
{
    auto line_after = [&](const char* tag) -> std::string
    {
        size_t p = err.find(tag);
        if (p == std::string::npos) { return ""; }
        p += strlen(tag);
        size_t e = err.find_first_of(" \n", p);
        return err.substr(p, e == std::string::npos ? 40 : e - p);
    };
    std::string k = line_after("ERROR: AddressSanitizer: ");
    if (k.empty())
    {
        size_t p = err.find("runtime error: ");
        if (p != std::string::npos)
        {
            size_t e = err.find('\n', p);
            k = "ub:" + err.substr(p + 15, std::min<size_t>(60, e - p - 15));
            std::string clean;
            for (char ch : k) { if (!(ch >= '0' && ch <= '9')) { clean += ch; } }
            k = clean;
        }
    }
    if (k.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 67)
    {
        // the first line of a report of memcheck: "==pid== Conditional jump or ..."
        size_t p = err.find("== ");
        size_t e = err.find('\n', p);
        if (p != std::string::npos) { k = "memcheck:" + err.substr(p + 3, std::min<size_t>(60, e - p - 3)); }
    }
    if (k.empty() && err.find("ThreadSanitizer") != std::string::npos) { k = "tsan:" + line_after("WARNING: ThreadSanitizer: "); }
    if (k.empty() && err.find("OUTPUT-BOUND-EXCEEDED") != std::string::npos) { k = "unbounded-growth"; }
    if (k.empty())
    {
        if (WIFSIGNALED(status)) { k = "signal-" + std::to_string(WTERMSIG(status)); }
        else { k = "exit-" + std::to_string(WEXITSTATUS(status)); }
    }
    return k;
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

} // namespace mon

using namespace mon;

static void dump_counts(const std::string& path)
{
    FILE* f = fopen(path.c_str(), "ab");
    for (auto& p : mon::g_counts) { fprintf(f, "%s %llu\n", p.first.c_str(), (unsigned long long)p.second); }
    fclose(f);
}

int main(int argc, char** argv)
{
    std::string plan, out = "out", replay;
    uint64_t shard = 0, shards = 1;
    double stall = 45;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--plan") { plan = val(); }            // wl=count,wl=count
        else if (a == "--seed") { mon::g_seed = strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--out") { out = val(); }
        else if (a == "--shard") { shard = strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--shards") { shards = strtoull(val().c_str(), nullptr, 10); }
        else if (a == "--stall") { stall = atof(val().c_str()); }
        else if (a == "--replay") { replay = val(); }   // wl:index
        else if (a == "--list") { for (auto& w : registry()) { printf("%s\n", w.name); } return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    mon::g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef HAVE_SAN_ALLOC
#ifndef MON_NO_HOOKS
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
#endif
    auto find = [&](const std::string& n) -> long
    {
        for (size_t i = 0; i < registry().size(); ++i) { if (n == registry()[i].name) { return long(i); } }
        return -1;
    };
    if (!replay.empty())
    {
        size_t p = replay.rfind(':');
        long w = find(replay.substr(0, p));
        if (w < 0) { fprintf(stderr, "no workload %s\n", replay.c_str()); return 2; }
        mon::g_out = stdout; mon::g_echo = true;
        uint64_t sig; bool nt;
        bool ok = run_one(Item{size_t(w), strtoull(replay.c_str() + p + 1, nullptr, 10)}, sig, nt);
        fprintf(stderr, ok ? "REPLAY: held\n" : "REPLAY: violated\n");
        return ok ? 0 : 1;
    }
    // plan -> schedule
    {
        size_t p = 0;
        while (p < plan.size())
        {
            size_t e = plan.find(',', p);
            if (e == std::string::npos) { e = plan.size(); }
            std::string t = plan.substr(p, e - p);
            size_t q = t.find('=');
            long w = find(t.substr(0, q));
            if (w < 0) { fprintf(stderr, "no workload %s\n", t.c_str()); return 2; }
            uint64_t n = strtoull(t.c_str() + q + 1, nullptr, 10);
            for (uint64_t i = shard; i < n; i += shards) { mon::g_sched.push_back(Item{size_t(w), i}); }
            p = e + 1;
        }
    }
    std::string errf = out + ".err", sigf = out + ".sig", cntf = out + ".cnt";
    unlink(cntf.c_str()); unlink(sigf.c_str());
    mon::g_out = fopen((out + ".viol").c_str(), "wb");
    setvbuf(mon::g_out, nullptr, _IONBF, 0);
    uint64_t from = 0;
    uint64_t crashes = 0, hangs = 0;
    std::set<uint64_t> hung_once;
    while (from < mon::g_sched.size())
    {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2); close(fd);
            rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            mon::g_sig = fopen(sigf.c_str(), "ab");
            setvbuf(mon::g_sig, nullptr, _IOFBF, 1 << 12);
            child_main(from);
            fclose(mon::g_sig);
            dump_counts(cntf);
            _exit(0);
        }
        int status = 0;
        uint64_t last = ~0ull; double t0 = now();
        bool killed = false;
        for (;;)
        {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) { break; }
            if (mon::g_sh->beat != last) { last = mon::g_sh->beat; t0 = now(); }
            else if (now() - t0 > stall) { kill(pid, SIGKILL); waitpid(pid, &status, 0); killed = true; break; }
            usleep(3000);
        }
        uint64_t cur = mon::g_sh->cur;
        if (!killed && WIFEXITED(status) && WEXITSTATUS(status) == 0) { break; }
        const Item& it = mon::g_sched[cur];
        const Workload& w = registry()[it.wl];
        if (killed)
        {
            // inconclusive the first time: run that case again before calling it a hang
            if (!hung_once.count(cur)) { hung_once.insert(cur); from = cur; continue; }
            ++hangs;
            record("hang", w.name, it.index, case_seed(w, it.index), cat("hang:", w.name), cat("no progress for ", stall, " s in two executions"));
        }
        else
        {
            ++crashes;
            std::string err = slurp(errf);
            std::string key = crash_key(err, status);
            record("crash", w.name, it.index, case_seed(w, it.index), cat("crash:", key), err.substr(0, 3500));
        }
        from = cur + 1;
        if (crashes >= 12 || hangs >= 2) { record("note", "runner", 0, 0, "too-many-crashes", "stopped early"); break; }
    }
    FILE* f = fopen((out + ".sum").c_str(), "wb");
    fprintf(f, "{\"scheduled\":%llu,\"done\":%llu,\"nontrivial\":%llu,\"crashes\":%llu,\"hangs\":%llu}\n",
        (unsigned long long)mon::g_sched.size(), (unsigned long long)mon::g_sh->done,
        (unsigned long long)mon::g_sh->nontrivial, (unsigned long long)crashes, (unsigned long long)hangs);
    fclose(f);
    fclose(mon::g_out);
    return 0;
}
