#include "core.hpp"

#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <exception>
#include <functional>
#include <new>
#include <set>
#include <typeinfo>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
int __real_clock_gettime(clockid_t, struct timespec*);
}

namespace sim {
Slot* g_slot = nullptr;
std::string g_prop;
bool g_verbose = false;
int g_harness = 0;
int g_cut = 0;

static Slot s_private_slot;  // used outside of explore

// ------------------------------------------------------------------ counters
void count(const char* name, u64 n) {
    u64 h = 1469598103934665603ULL;
    for (const char* p = name; *p; ++p) h = (h ^ u8(*p)) * 1099511628211ULL;
    for (int i = 0; i < kMaxCounters; ++i) {
        Counter& c = g_slot->counters[(h + u64(i)) % kMaxCounters];
        if (c.name[0] == 0) {
            strncpy(c.name, name, sizeof c.name - 1);
            c.n.store(n, std::memory_order_relaxed);
            return;
        }
        if (strncmp(c.name, name, sizeof c.name - 1) == 0) {
            c.n.store(c.n.load(std::memory_order_relaxed) + n, std::memory_order_relaxed);
            return;
        }
    }
}

constexpr u64 kSetBits = 23;
struct HashSet
{
    std::atomic<u64> n;
    std::atomic<u64> full;
    std::atomic<u64> t[1ULL << kSetBits];
    void add(u64 h) {
        if (h == 0) h = 1;
        u64 m = (1ULL << kSetBits) - 1;
        for (u64 i = 0; i < 64; ++i) {
            auto& e = t[(h + i) & m];
            u64 cur = e.load(std::memory_order_relaxed);
            if (cur == h) return;
            if (cur == 0) {
                u64 z = 0;
                if (e.compare_exchange_strong(z, h, std::memory_order_relaxed)) {
                    n.fetch_add(1, std::memory_order_relaxed);
                    return;
                }
                if (z == h) return;
            }
        }
        full.fetch_add(1, std::memory_order_relaxed);
    }
};
static HashSet* g_runset = nullptr;
static HashSet* g_stateset = nullptr;

void note_state(u64 h) {
    if (g_stateset) g_stateset->add(mix64(h));
}
void interesting() { g_slot->run_interesting.store(1, std::memory_order_relaxed); }
void sim_time(u64 ns) { g_slot->run_sim_ns.store(g_slot->run_sim_ns.load(std::memory_order_relaxed) + ns, std::memory_order_relaxed); }
void* (*g_alloc_hook)(std::size_t, int) = nullptr;
int (*g_free_hook)(void*, int) = nullptr;
u64 (*g_size_hook)(const void*) = nullptr;
u64 (*g_clock_hook)() = nullptr;

bool about(const char* props) { return strstr(props, g_prop.c_str()) != nullptr; }

// ------------------------------------------------------------------ failure reporting
static void store_failure(const char* kind, const char* msg) {
    if (!g_slot) return;
    int z = 0;
    if (!g_slot->failed.compare_exchange_strong(z, 1)) return;
    strncpy(g_slot->kind, kind, sizeof g_slot->kind - 1);
    strncpy(g_slot->msg, msg, sizeof g_slot->msg - 1);
}
void fail(const char* kind, const char* fmt, ...) {
    char buf[2800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    std::string k = std::string(kind);
    store_failure(k.c_str(), buf);
    if (g_verbose) {
        fprintf(stdout, "FAIL step=%llu kind=%s: %s\n", (unsigned long long)g_slot->step.load(), kind, buf);
        fflush(stdout);
    }
    _exit(77);
}
void logf(const char* fmt, ...) {
    if (!g_verbose) return;
    va_list ap;
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
}

static void on_terminate() {
    g_cut = 0;
    char kind[160] = "terminate";
    if (auto* t = abi::__cxa_current_exception_type()) {
        int st = 0;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        snprintf(kind, sizeof kind, "terminate:%s", d ? d : t->name());
    }
    fail(kind, "std::terminate was called (an exception left a noexcept function or a destructor)");
}

static volatile sig_atomic_t s_ticks = 0;
static int s_tick_limit = 20;
static void on_tick(int) {
    if (++s_ticks >= s_tick_limit) {
        store_failure("hang", "operation does not terminate (CPU time limit of the run exceeded)");
        _exit(77);
    }
}
static void on_signal(int sig) {
    char kind[32];
    snprintf(kind, sizeof kind, "signal:%d", sig);
    store_failure(kind, "killed by a signal");
    if (g_verbose) {
        dprintf(1, "FAIL step=%llu kind=%s\n", (unsigned long long)g_slot->step.load(), kind);
    }
    _exit(77);
}

#ifdef SIM_ASAN
static void on_asan(const char* report) {
    char kind[160] = "asan:error";
    if (const char* p = strstr(report, "AddressSanitizer: ")) {
        p += strlen("AddressSanitizer: ");
        size_t n = 0;
        char t[64];
        while (p[n] && p[n] != ' ' && p[n] != '\n' && n < sizeof t - 1) {
            t[n] = p[n];
            ++n;
        }
        t[n] = 0;
        const char* rw = strstr(report, "\nWRITE of size") ? ":write" : strstr(report, "\nREAD of size") ? ":read" : "";
        snprintf(kind, sizeof kind, "asan:%s%s", t, rw);
    }
    store_failure(kind, report);
    if (g_verbose) {
        dprintf(1, "FAIL step=%llu kind=%s\n%.3000s\n", (unsigned long long)g_slot->step.load(), kind, report);
    }
    _exit(77);
}
#endif
}  // namespace sim

extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept {
    ::sim::g_cut = 0;
    char kind[180];
    const char* base = strrchr(file, '/');
    snprintf(kind, sizeof kind, "assert:%.120s", expr);
    ::sim::fail(kind, "assertion failed at %s:%u: %s", base ? base + 1 : file, line, expr);
}

#ifdef SIM_ASAN
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:symbolize=0:"
           "quarantine_size_mb=16:exitcode=99:allow_user_segv_handler=0:handle_sigfpe=1:handle_sigill=1:"
           "detect_container_overflow=0:malloc_context_size=8";
}
#endif

// ------------------------------------------------------------------ allocation seam
namespace sim::heap {
enum Kind : u8 { kMalloc = 1, kNew = 2, kNewArr = 3 };
struct Ent
{
    void* p;
    size_t n;
    u8 kind;
    u64 seq;
};
constexpr u64 kBits = 16;
static Ent s_tab[1 << kBits];
static void* const kTomb = reinterpret_cast<void*>(1);
static u64 s_live, s_bytes, s_seq, s_used;
static i64 s_at = -1, s_len = 0, s_cap = -1;
static u64 s_fired, s_allocs, s_total_failed, s_garbage;
static bool s_huge;
static bool s_leaked, s_strict;
static int s_kept;

static Ent* find(const void* p) {
    u64 m = (1 << kBits) - 1;
    u64 h = mix64(reinterpret_cast<u64>(p));
    for (u64 i = 0; i <= m; ++i) {
        Ent& e = s_tab[(h + i) & m];
        if (e.p == p) return &e;
        if (e.p == nullptr) return nullptr;
    }
    return nullptr;
}
static void insert(void* p, size_t n, u8 kind) {
    u64 m = (1 << kBits) - 1;
    if (s_used * 2 > m) {  // rehash (drop tombstones)
        std::vector<Ent> keep;
        for (auto& e : s_tab)
            if (e.p && e.p != kTomb) keep.push_back(e);
        memset(s_tab, 0, sizeof s_tab);
        s_used = 0;
        for (auto& e : keep) {
            u64 h = mix64(reinterpret_cast<u64>(e.p));
            for (u64 i = 0;; ++i) {
                Ent& t = s_tab[(h + i) & m];
                if (t.p == nullptr) {
                    t = e;
                    ++s_used;
                    break;
                }
            }
        }
    }
    u64 h = mix64(reinterpret_cast<u64>(p));
    for (u64 i = 0;; ++i) {
        Ent& e = s_tab[(h + i) & m];
        if (e.p == nullptr || e.p == kTomb) {
            if (e.p == nullptr) ++s_used;
            e = Ent{p, n, kind, s_seq++};
            ++s_live;
            s_bytes += n;
            return;
        }
    }
}
void begin_run(u64 seed) {
    if (s_used) {
        std::vector<void*> ps;
        for (auto& e : s_tab)
            if (e.p && e.p != kTomb) ps.push_back(e.p);
        memset(s_tab, 0, sizeof s_tab);
        if (++s_kept > 200)
            for (void* p : ps) __real_free(p);
    }
    s_live = s_bytes = s_seq = s_used = 0;
    s_garbage = mix64(seed);
    s_total_failed = 0;
    clear_plan();
}
void plan(i64 k, i64 len) {
    clear_plan();
    s_at = k;
    s_len = len;
}
void plan_cap(i64 bytes) {
    clear_plan();
    s_cap = bytes;
}
void clear_plan() {
    s_at = -1;
    s_len = 0;
    s_cap = -1;
    s_fired = s_allocs = 0;
    s_huge = false;
}
u64 fired() { return s_fired; }
u64 allocs() { return s_allocs; }
u64 live_count() { return s_live; }
u64 live_bytes() { return s_bytes; }
u64 total_failed() { return s_total_failed; }
bool huge_refused() { return s_huge; }
bool is_live(const void* p) { return find(p) != nullptr; }
u64 size_of(const void* p) {
    Ent* e = find(p);
    return e ? e->n : 0;
}

static void* alloc(size_t n, u8 kind) {
    u64 k = s_allocs++;
    bool bad = false;
    if (s_at >= 0 && k >= u64(s_at) && k < u64(s_at) + u64(s_len)) bad = true;
    if (s_cap >= 0 && (n > u64(s_cap) || s_bytes + n > u64(s_cap))) bad = true;
    if (n > (64ULL << 20) || s_bytes + n > (256ULL << 20)) {
        bad = true;
        s_huge = true;
    }
    if (bad) {
        ++s_fired;
        ++s_total_failed;
        errno = ENOMEM;
        return nullptr;
    }
    size_t real = n;
#ifdef NDEBUG
    real = (n + 15) / 16 * 16;  // the inline-string fast path may read whole aligned words
#endif
    void* p = __real_malloc(real ? real : 1);
    if (!p) return nullptr;
    u8 g = u8(s_garbage = mix64(s_garbage));
    memset(p, g | 1, real);
    insert(p, n, kind);
    return p;
}
static void drop(Ent* e) {
    s_bytes -= e->n;
    --s_live;
    e->p = kTomb;
}
void check_empty(const char* props, const char* kind) {
    if (s_live == 0) return;
    u64 n = s_live, b = s_bytes;
    u64 first = ~0ULL;
    size_t sz = 0;
    for (auto& e : s_tab)
        if (e.p && e.p != kTomb && e.seq < first) {
            first = e.seq;
            sz = e.n;
        }
    if (about(props) && s_strict)
        fail(kind, "%llu allocation(s) (%llu bytes) were never released; the oldest is allocation #%llu of %zu bytes",
             (unsigned long long)n, (unsigned long long)b, (unsigned long long)first, sz);
    // Memory that a first use keeps on purpose (a static, a cache) is not a leak: it is forgotten here, and the caller runs the
    // same history again; what stays allocated then was leaked.
    s_leaked = s_leaked || about(props);
    if (s_kept < 200) {
        ++s_kept;
        memset(s_tab, 0, sizeof s_tab);
        s_live = s_bytes = s_used = 0;
    }
}
bool suspect_leak() {
    if (!s_strict) s_leaked = true;
    return !s_strict;
}
bool leak_suspected() { return s_leaked; }
void leak_strict(bool on) {
    s_strict = on;
    s_leaked = false;
}
}  // namespace sim::heap

extern "C" {
void* __wrap_malloc(size_t n) {
    if (sim::g_alloc_hook) {
        void* p = sim::g_alloc_hook(n, sim::heap::kMalloc);
        if (p != reinterpret_cast<void*>(1)) return p;
    }
    if (sim::g_cut > 0) return sim::heap::alloc(n, sim::heap::kMalloc);
    return __real_malloc(n);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (sim::g_alloc_hook) {
        size_t n = 0;
        if (__builtin_mul_overflow(a, b, &n)) return nullptr;
        void* p = sim::g_alloc_hook(n, sim::heap::kMalloc);
        if (p && p != reinterpret_cast<void*>(1)) memset(p, 0, n);
        if (p != reinterpret_cast<void*>(1)) return p;
    }
    if (sim::g_cut > 0) {
        size_t n = 0;
        if (__builtin_mul_overflow(a, b, &n)) return nullptr;
        void* p = sim::heap::alloc(n, sim::heap::kMalloc);
        if (p) memset(p, 0, n);
        return p;
    }
    return __real_calloc(a, b);
}
void __wrap_free(void* p) {
    if (p && sim::g_free_hook && sim::g_free_hook(p, sim::heap::kMalloc)) return;
    if (p) {
        if (auto* e = sim::heap::find(p)) {
            if (e->kind != sim::heap::kMalloc) {
                sim::g_cut = 0;
                sim::fail("heap:mismatch", "memory from operator new was released with free()");
            }
            sim::heap::drop(e);
        }
    }
    __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
    if (sim::g_alloc_hook) {
        sim::u64 sz = p ? sim::g_size_hook(p) : 0;
        if (sz != ~0ULL) {
            void* q = sim::g_alloc_hook(n, sim::heap::kMalloc);
            if (q != reinterpret_cast<void*>(1)) {
                if (q && p) {
                    memcpy(q, p, sz < n ? sz : n);
                    sim::g_free_hook(p, sim::heap::kMalloc);
                }
                return q;
            }
            if (p) {  // outside of the simulation
                q = __real_malloc(n);
                if (q) {
                    memcpy(q, p, sz < n ? sz : n);
                    sim::g_free_hook(p, sim::heap::kMalloc);
                }
                return q;
            }
        }
    }
    sim::heap::Ent* e = p ? sim::heap::find(p) : nullptr;
    if (sim::g_cut == 0 && !e) return __real_realloc(p, n);
    size_t old = e ? e->n : 0;
    if (p && !e) {
        sim::g_cut = 0;
        sim::fail("heap:realloc-unknown", "realloc() of memory that is not allocated");
    }
    void* q = sim::heap::alloc(n, sim::heap::kMalloc);
    if (!q) return nullptr;
    if (p) {
        memcpy(q, p, old < n ? old : n);
        e = sim::heap::find(p);
        sim::heap::drop(e);
        __real_free(p);
    }
    return q;
}
// glibc extensions the code under test might consult
size_t __wrap_malloc_usable_size(void* p) {
    if (sim::g_size_hook && sim::g_size_hook(p) != ~0ULL) return sim::g_size_hook(p);
    if (auto* e = sim::heap::find(p)) return e->n;
    return 0;
}
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) {
    if (sim::g_cut == 0) return __real_clock_gettime(id, ts);
    sim::u64 ns = 0;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        ns = sim::u64(std::chrono::system_clock::now().time_since_epoch().count());
    } else {
        ns = sim::u64(std::chrono::steady_clock::now().time_since_epoch().count());
    }
    ts->tv_sec = time_t(ns / 1000000000ULL);
    ts->tv_nsec = long(ns % 1000000000ULL);
    return 0;
}
}

#ifndef SIM_NO_NEW
static void* sim_new(size_t n, sim::u8 kind) {
    if (sim::g_alloc_hook) {
        void* p = sim::g_alloc_hook(n, kind);
        if (!p) throw std::bad_alloc();
        if (p != reinterpret_cast<void*>(1)) return p;
    }
    if (sim::g_cut > 0) {
        void* p = sim::heap::alloc(n, kind);
        if (!p) throw std::bad_alloc();
        return p;
    }
    void* p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void sim_delete(void* p, sim::u8 kind) {
    if (!p) return;
    if (sim::g_free_hook && sim::g_free_hook(p, kind)) return;
    if (auto* e = sim::heap::find(p)) {
        if (e->kind != kind) {
            sim::g_cut = 0;
            sim::fail("heap:mismatch", "memory released with the wrong deallocation function");
        }
        sim::heap::drop(e);
    }
    __real_free(p);
}
void* operator new(size_t n) { return sim_new(n, sim::heap::kNew); }
void* operator new[](size_t n) { return sim_new(n, sim::heap::kNewArr); }
void operator delete(void* p) noexcept { sim_delete(p, sim::heap::kNew); }
void operator delete[](void* p) noexcept { sim_delete(p, sim::heap::kNewArr); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, sim::heap::kNew); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, sim::heap::kNewArr); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim_new(n, sim::heap::kNew);
    } catch (...) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim_new(n, sim::heap::kNewArr);
    } catch (...) {
        return nullptr;
    }
}
#endif

// ------------------------------------------------------------------ clock seam
namespace sim::clk {
static u64 s_steady = 0;
static i64 s_system = 0;
u64 steady_reads = 0, system_reads = 0;
void begin_run(u64 steady_ns, i64 system_ns) {
    s_steady = steady_ns;
    s_system = system_ns;
    steady_reads = system_reads = 0;
}
void advance(u64 ns) {
    s_steady += ns;
    s_system += i64(ns);
    sim_time(ns);
}
void jump_system(i64 ns) { s_system += ns; }
u64 steady() { return g_clock_hook ? g_clock_hook() : s_steady; }
static i64 system_now() { return s_system; }
}  // namespace sim::clk
#ifdef SIM_CLOCK
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    ++::sim::clk::steady_reads;
    return time_point(duration(static_cast<long long>(::sim::clk::steady())));
}
system_clock::time_point system_clock::now() noexcept {
    ++::sim::clk::system_reads;
    return time_point(duration(::sim::clk::system_now()));
}
}  // namespace _V2
}  // namespace std::chrono
#endif

// ------------------------------------------------------------------ driver
namespace sim {
static double now_s() {
    timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}
static void arm_timer() {  // not inherited by a fork
    itimerval it{};
    it.it_interval.tv_sec = 0;
    it.it_interval.tv_usec = 500000;
    it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
static void install_handlers() {
    std::set_terminate(on_terminate);
#ifdef SIM_ASAN
    __asan_set_error_report_callback(on_asan);
    static int null_fd = open("/dev/null", O_WRONLY);
    __sanitizer_set_report_fd(reinterpret_cast<void*>(long(null_fd)));  // the report is kept by on_asan
#else
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal;
        sigaction(s, &sa, nullptr);
    }
#endif
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sigaction(SIGABRT, &sa, nullptr);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    arm_timer();
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

static void run_one(World* w, const Trace& t) {
    s_ticks = 0;
    g_slot->run_interesting.store(0);
    g_slot->run_sim_ns.store(0);
    g_cut = 0;
    g_slot->evhash.store(0);
    g_slot->nevents.store(0);
    g_slot->step.store(0);
    heap::begin_run(t.seed);
    heap::leak_strict(false);
    w->run(t);
    if (heap::leak_suspected()) {
        g_slot->run_interesting.store(0);
        g_slot->run_sim_ns.store(0);
        g_cut = 0;
        g_slot->evhash.store(0);
        g_slot->nevents.store(0);
        g_slot->step.store(0);
        heap::begin_run(t.seed);
        heap::leak_strict(true);
        w->run(t);
    }
    s_ticks = 0;
}

static Trace make_trace(World* w, const std::string& prop, u64 base, u64 index) {
    Trace t;
    t.prop = prop;
    t.seed = mix2(base, index);
    Rng rng(t.seed);
    w->generate(rng, prop, t);
    return t;
}

static std::string trace_text(World* w, const Trace& t, const std::string& variant, const std::string& kind,
                              const std::string& msg) {
    std::string s = "# simulation trace: every line 'op' is one step (faults are steps), replayed exactly as written\n";
    s += "property " + t.prop + "\nworld " + w->name() + "\nvariant " + variant + "\n";
    char b[256];
    snprintf(b, sizeof b, "seed %llu\n", (unsigned long long)t.seed);
    s += b;
    if (!kind.empty()) s += "expect " + kind + "\n";
    if (!msg.empty()) {
        std::string line;
        for (char c : msg.substr(0, 1500)) {
            if (c == '\n') {
                s += "# " + line + "\n";
                line.clear();
            } else {
                line += c;
            }
        }
        s += "# " + line + "\n";
    }
    for (auto& [k, v] : t.cfg) {
        snprintf(b, sizeof b, "cfg %s %lld\n", k.c_str(), (long long)v);
        s += b;
    }
    for (auto& o : t.ops) {
        s += std::string("op ") + w->ops()[size_t(o.code)].name;
        for (int i = 0; i < w->ops()[size_t(o.code)].nargs; ++i) {
            snprintf(b, sizeof b, " %lld", (long long)o.a[i]);
            s += b;
        }
        s += "\n";
    }
    return s;
}
static bool parse_trace(World* w, const char* path, Trace& t, std::string& kind, std::string& variant) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[8192];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        std::string l(line);
        while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        auto sp = l.find(' ');
        if (sp == std::string::npos) continue;
        std::string key = l.substr(0, sp), rest = l.substr(sp + 1);
        if (key == "property") t.prop = rest;
        if (key == "variant") variant = rest;
        if (key == "expect") kind = rest;
        if (key == "seed") t.seed = strtoull(rest.c_str(), nullptr, 10);
        if (key == "cfg") {
            auto q = rest.find(' ');
            t.cfg[rest.substr(0, q)] = strtoll(rest.c_str() + q, nullptr, 10);
        }
        if (key == "op") {
            auto q = rest.find(' ');
            std::string name = rest.substr(0, q);
            Op o;
            o.code = -1;
            for (size_t i = 0; i < w->ops().size(); ++i)
                if (name == w->ops()[i].name) o.code = int(i);
            if (o.code < 0) {
                fprintf(stderr, "unknown op %s\n", name.c_str());
                fclose(f);
                return false;
            }
            const char* p = q == std::string::npos ? "" : rest.c_str() + q;
            for (int i = 0; i < kMaxArgs; ++i) {
                char* e = nullptr;
                o.a[i] = strtoll(p, &e, 10);
                if (e == p) break;
                p = e;
            }
            t.ops.push_back(o);
        }
    }
    fclose(f);
    return true;
}

struct TryResult
{
    bool failed = false;
    std::string kind, msg;
    u64 step = 0, hash = 0, nev = 0;
};
static Slot* s_try_slot = nullptr;
static TryResult try_trace(World* w, const Trace& t) {
    memset(static_cast<void*>(s_try_slot), 0, sizeof *s_try_slot);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        g_slot = s_try_slot;
        g_prop = t.prop;
        install_handlers();
        s_tick_limit = 10;
        run_one(w, t);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    TryResult r;
    r.step = s_try_slot->step.load();
    r.hash = s_try_slot->evhash.load();
    r.nev = s_try_slot->nevents.load();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
    r.failed = true;
    r.kind = s_try_slot->kind;
    r.msg = s_try_slot->msg;
    if (r.kind.empty()) {
        char b[64];
        snprintf(b, sizeof b, "died:%s%d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        r.kind = b;
    }
    return r;
}
static std::string kind_class(const std::string& k) { return k; }

static Trace minimise(World* w, Trace t, const std::string& kind, double budget) {
    double end = now_s() + budget;
    auto bad = [&](const Trace& c) {
        auto r = try_trace(w, c);
        return r.failed && kind_class(r.kind) == kind_class(kind);
    };
    // cut everything behind the failing step
    auto r0 = try_trace(w, t);
    if (r0.failed && r0.step + 1 < t.ops.size()) {
        Trace c = t;
        c.ops.resize(r0.step + 1);
        if (bad(c)) t = c;
    }
    bool progress = true;
    while (progress && now_s() < end) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, t.ops.size() / 2); chunk >= 1 && now_s() < end; chunk /= 2) {
            for (size_t i = 0; i < t.ops.size() && now_s() < end;) {
                Trace c = t;
                size_t n = std::min(chunk, c.ops.size() - i);
                c.ops.erase(c.ops.begin() + long(i), c.ops.begin() + long(i + n));
                if (bad(c)) {
                    t = c;
                    progress = true;
                } else {
                    i += chunk;
                }
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < t.ops.size() && now_s() < end; ++i) {
            for (int k = 0; k < w->ops()[size_t(t.ops[i].code)].nargs; ++k) {
                i64 v = t.ops[i].a[k];
                if (v == 0) continue;
                for (i64 cand : {i64(0), i64(1), v / 16, v / 2, v - 1}) {
                    if (cand == v || (cand < 0) != (v < 0)) {
                        if (!(cand == 0)) continue;
                    }
                    if (cand == t.ops[i].a[k]) continue;
                    if (llabs(cand) > llabs(t.ops[i].a[k])) continue;
                    Trace c = t;
                    c.ops[i].a[k] = cand;
                    if (bad(c)) {
                        t = c;
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    for (auto& [k, v] : std::map<std::string, i64>(t.cfg)) {
        if (v == 0 || now_s() > end) continue;
        Trace c = t;
        c.cfg[k] = 0;
        if (bad(c)) t = c;
    }
    return t;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (u8(c) < 32 || u8(c) > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", u8(c));
            o += b;
        } else {
            o += c;
        }
    }
    return o;
}

constexpr u64 kHashKeep = 4096;
struct Global
{
    std::atomic<int> stop;
    std::atomic<u64> next;
    std::atomic<u64> nondet, nondet_index;
    u64 hashes[kHashKeep];
};

static int cmd_explore(World* w, const std::string& prop, const std::string& variant, u64 base, double secs, int workers,
                       u64 start, u64 maxruns, const std::string& outdir, bool isolated) {
    auto shm = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(3);
        }
        return p;
    };
    auto* slots = static_cast<Slot*>(shm(sizeof(Slot) * size_t(workers)));
    auto* glob = static_cast<Global*>(shm(sizeof(Global)));
    g_runset = static_cast<HashSet*>(shm(sizeof(HashSet)));
    g_stateset = static_cast<HashSet*>(shm(sizeof(HashSet)));
    s_try_slot = static_cast<Slot*>(shm(sizeof(Slot)));
    isolated = isolated || w->isolated();
    double t0 = now_s(), tend = t0 + secs;
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int k = 0; k < workers; ++k) {
        pid_t pid = fork();
        if (pid == 0) {
            g_slot = &slots[k];
            g_prop = prop;
            install_handlers();
            for (u64 j = 0;; ++j) {
                u64 i = start + u64(k) + j * u64(workers);
                if (glob->stop.load(std::memory_order_relaxed)) break;
                if ((j & 7) == 0 && now_s() > tend) break;
                if (maxruns && i >= start + maxruns) break;
                Trace t = make_trace(w, prop, base, i);
                g_slot->cur_index.store(i);
                g_slot->cur_seed.store(t.seed);
                if (isolated) {
                    pid_t c = fork();
                    if (c == 0) {
                        arm_timer();
                        run_one(w, t);
                        _exit(0);
                    }
                    int st = 0;
                    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {
                    }
                    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) _exit(77);
                } else {
                    run_one(w, t);
                }
                u64 h = g_slot->evhash.load();
                if (i < kHashKeep) glob->hashes[i] = h ? h : 1;
                g_slot->runs.fetch_add(1);
                g_slot->ops.fetch_add(t.ops.size());
                g_slot->sim_ns.fetch_add(g_slot->run_sim_ns.load());
                if (g_slot->run_interesting.load()) {
                    g_slot->interesting.fetch_add(1);
                    g_runset->add(h);
                }
                if (!isolated && (j % 97) == 13) {  // determinism: the same trace again in the same process
                    run_one(w, t);
                    if (g_slot->evhash.load() != h) {
                        glob->nondet.fetch_add(1);
                        glob->nondet_index.store(i);
                    }
                    count("determinism.rerun_in_process");
                }
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    // wait; stop everything at the first failure
    int alive = workers;
    std::vector<int> bad;
    while (alive > 0) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) {
            if (errno == EINTR) continue;
            break;
        }
        for (int k = 0; k < workers; ++k)
            if (pids[size_t(k)] == p) {
                --alive;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    bad.push_back(k);
                    glob->stop.store(1);
                    if (slots[k].kind[0] == 0)
                        snprintf(slots[k].kind, sizeof slots[k].kind, "died:%s%d", WIFSIGNALED(st) ? "signal" : "exit",
                                 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                }
            }
    }
    double explored = now_s() - t0;
    // violation handling
    std::string vjson = "null";
    const u64 nstates = g_stateset->n.load();
    g_stateset = nullptr;  // trial runs of the minimiser do not count
    int unrepro = 0;
    std::string unrepro_kind;
    std::sort(bad.begin(), bad.end(),
              [&](int a, int b) { return slots[a].cur_index.load() < slots[b].cur_index.load(); });
    for (int k : bad) {
        u64 idx = slots[k].cur_index.load();
        Trace t = make_trace(w, prop, base, idx);
        auto r = try_trace(w, t);
        auto r2 = try_trace(w, t);
        if (!r.failed || !r2.failed || r.kind != r2.kind || r.hash != r2.hash) {
            ++unrepro;
            unrepro_kind = slots[k].kind;
            continue;
        }
        Trace m = minimise(w, t, r.kind, 25.0);
        auto rm = try_trace(w, m);
        std::string path = outdir + "/" + prop + "-" + variant + "-" + std::to_string(idx) + ".trace";
        FILE* f = fopen(path.c_str(), "w");
        if (f) {
            auto s = trace_text(w, m, variant, rm.kind, rm.msg);
            fwrite(s.data(), 1, s.size(), f);
            fclose(f);
        }
        char b[512];
        snprintf(b, sizeof b, "{\"index\": %llu, \"seed\": %llu, \"orig_ops\": %zu, \"min_ops\": %zu, \"hash\": \"%016llx\", ",
                 (unsigned long long)idx, (unsigned long long)t.seed, t.ops.size(), m.ops.size(),
                 (unsigned long long)rm.hash);
        vjson = std::string(b) + "\"kind\": \"" + jesc(rm.kind) + "\", \"msg\": \"" + jesc(rm.msg.substr(0, 1200)) +
                "\", \"replay\": \"" + jesc(path) + "\"}";
        break;
    }
    // summary
    u64 runs = 0, ops = 0, simns = 0, intr = 0;
    std::map<std::string, u64> cnt;
    for (int k = 0; k < workers; ++k) {
        runs += slots[k].runs;
        ops += slots[k].ops;
        simns += slots[k].sim_ns;
        intr += slots[k].interesting;
        for (auto& c : slots[k].counters)
            if (c.name[0]) cnt[c.name] += c.n;
    }
    // determinism across processes and worker counts: first runs again, one fresh process each
    u64 detn = 0, detbad = 0;
    if (bad.empty()) {
        double tdet = now_s() + std::min(4.0, secs / 4);
        for (u64 i = start; i < start + 64 && i < kHashKeep && now_s() < tdet; ++i) {
            if (!glob->hashes[i]) continue;
            auto r = try_trace(w, make_trace(w, prop, base, i));
            ++detn;
            if (r.failed || (r.hash ? r.hash : 1) != glob->hashes[i]) ++detbad;
        }
    }
    std::string out = "{";
    char b[1024];
    snprintf(b, sizeof b,
             "\"runs\": %llu, \"ops\": %llu, \"sim_ns\": %llu, \"interesting\": %llu, \"distinct_runs\": %llu, "
             "\"distinct_states\": %llu, \"set_saturated\": %llu, \"wall\": %.3f, \"unreproducible\": %d, "
             "\"nondeterministic\": %llu, \"det_fresh\": %llu, \"det_fresh_bad\": %llu, \"workers\": %d, \"start\": %llu,\n",
             (unsigned long long)runs, (unsigned long long)ops, (unsigned long long)simns, (unsigned long long)intr,
             (unsigned long long)g_runset->n.load(), (unsigned long long)nstates, (unsigned long long)g_runset->full.load(),
             explored, unrepro, (unsigned long long)glob->nondet.load(), (unsigned long long)detn,
             (unsigned long long)detbad, workers, (unsigned long long)start);
    out += b;
    out += "\"unreproducible_kind\": \"" + jesc(unrepro_kind) + "\",\n\"counters\": {";
    bool first = true;
    for (auto& [k, v] : cnt) {
        out += std::string(first ? "" : ", ") + "\"" + jesc(k) + "\": " + std::to_string(v);
        first = false;
    }
    out += "},\n\"violation\": " + vjson + ",\n\"components\": \"" + jesc(w->components()) + "\",\n\"samples\": [";
    for (u64 i = 0; i < 2; ++i) {
        Trace t = make_trace(w, prop, base, start + i * 7);
        out += std::string(i ? ", " : "") + "\"" + jesc(trace_text(w, t, variant, "", "").substr(0, 2500)) + "\"";
    }
    out += "]}\n";
    std::string path = outdir + "/explore-" + variant + ".json";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return 3;
    fwrite(out.data(), 1, out.size(), f);
    fclose(f);
    return 0;
}

int driver_main(int argc, char** argv, World* w) {
    std::string mode, prop, variant = "debug", outdir = ".", file;
    u64 base = 1, start = 0, maxruns = 0;
    double secs = 10;
    int workers = 8;
    bool isolated = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "explore" || a == "replay" || a == "gen" || a == "one") mode = a;
        else if (a == "--prop") prop = val();
        else if (a == "--variant") variant = val();
        else if (a == "--seed") base = strtoull(val(), nullptr, 10);
        else if (a == "--start") start = strtoull(val(), nullptr, 10);
        else if (a == "--max") maxruns = strtoull(val(), nullptr, 10);
        else if (a == "--time") secs = atof(val());
        else if (a == "--workers") workers = atoi(val());
        else if (a == "--out") outdir = val();
        else if (a == "--isolated") isolated = true;
        else file = a;
    }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    if (mode == "explore") return cmd_explore(w, prop, variant, base, secs, workers, start, maxruns, outdir, isolated);
    g_slot = &s_private_slot;
    Trace t;
    std::string kind, fvariant;
    if (mode == "replay") {
        if (!parse_trace(w, file.c_str(), t, kind, fvariant)) {
            fprintf(stderr, "cannot parse %s\n", file.c_str());
            return 3;
        }
    } else {
        t = make_trace(w, prop, base, start);
    }
    if (mode == "gen") {
        fputs(trace_text(w, t, variant, "", "").c_str(), stdout);
        return 0;
    }
    // replay / one: run in a child so that the outcome can be printed uniformly
    s_try_slot = static_cast<Slot*>(
      mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_verbose = getenv("SIM_QUIET") == nullptr;
    auto r = try_trace(w, t);
    printf("RESULT failed=%d hash=%016llx events=%llu step=%llu kind=%s\n", int(r.failed), (unsigned long long)r.hash,
           (unsigned long long)r.nev, (unsigned long long)r.step, r.kind.c_str());
    if (r.failed) printf("%s\n", r.msg.c_str());
    return r.failed ? 1 : 0;
}
}  // namespace sim

int main(int argc, char** argv) { return sim::driver_main(argc, argv, sim::make_world()); }
