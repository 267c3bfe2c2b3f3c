// Deterministic simulation core: PRNG, traces, event log, fault plan, allocation seam, failure reports.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace sim {
using u64 = std::uint64_t;
using i64 = std::int64_t;
using u32 = std::uint32_t;
using u8 = std::uint8_t;

inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix64(a ^ mix64(b + 0x1234567)); }

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(mix64(seed)) {}
    u64 next() {
        s += 0x9e3779b97f4a7c15ULL;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template <typename T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    std::size_t weighted(const std::vector<u32>& w) {
        u64 t = 0;
        for (u32 x : w) t += x;
        u64 r = below(t);
        for (std::size_t i = 0; i < w.size(); ++i) {
            if (r < w[i]) return i;
            r -= w[i];
        }
        return 0;
    }
};

constexpr i64 kVast = 1LL << 40;  // lengths from there on are meant to be large
constexpr int kMaxArgs = 5;
struct Op
{
    int code = 0;
    i64 a[kMaxArgs] = {0, 0, 0, 0, 0};
};
struct OpDesc
{
    const char* name;
    int nargs;
};
struct Trace
{
    std::string prop;
    u64 seed = 0;
    std::map<std::string, i64> cfg;
    std::vector<Op> ops;
    i64 c(const char* k, i64 d = 0) const {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
};

// A simulated world: generates traces from a PRNG and executes traces.
struct World
{
    virtual ~World() = default;
    virtual const char* name() const = 0;
    virtual const std::vector<OpDesc>& ops() const = 0;
    virtual void generate(Rng& rng, const std::string& prop, Trace& t) = 0;
    virtual void run(const Trace& t) = 0;
    // remaps a property-relevant pool for evidence
    virtual const char* components() const = 0;
    virtual bool isolated() const { return false; }  // one process per run
};
World* make_world();

// ---------------------------------------------------------------- run context
struct Counter
{
    char name[48];
    std::atomic<u64> n;
};
constexpr int kMaxCounters = 512;
struct Slot  // one per worker, in shared memory
{
    std::atomic<u64> runs, ops, sim_ns, interesting;
    std::atomic<u64> run_interesting, run_sim_ns;  // of the current run
    std::atomic<u64> cur_index, cur_seed;
    std::atomic<u64> step;
    std::atomic<u64> evhash;
    std::atomic<u64> nevents;
    std::atomic<int> failed;
    char kind[192];
    char msg[3072];
    Counter counters[kMaxCounters];
};
extern Slot* g_slot;
extern std::string g_prop;
extern bool g_verbose;
extern int g_harness;  // >0: harness code is running inside code under test

void count(const char* name, u64 n = 1);
void note_state(u64 h);        // an abstract state was reached
void interesting();            // this run is non-trivial
void sim_time(u64 ns);         // simulated time advanced
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void ev(u64 x) {
    u64 h = g_slot->evhash.load(std::memory_order_relaxed);
    g_slot->evhash.store(mix64(h ^ (x * 0x2545F4914F6CDD1DULL + 0x9E37)), std::memory_order_relaxed);
    g_slot->nevents.store(g_slot->nevents.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
}
inline u64 hash_bytes(const void* p, std::size_t n) {
    const u8* b = static_cast<const u8*>(p);
    u64 h = 0xcbf29ce484222325ULL ^ n;
    for (std::size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ULL;
    return mix64(h);
}
// true when the running check is about one of the listed properties ("C01,C02")
bool about(const char* props);
#define SIM_CHECK(props, cond, kind, ...)                                  \
    do {                                                                   \
        if (!(cond) && ::sim::about(props)) ::sim::fail(kind, __VA_ARGS__); \
    } while (0)

// ---------------------------------------------------------------- allocation seam
// While a CUT guard is alive, malloc/realloc/operator new of the code under test are tracked and may fail.
extern int g_cut;
// the compiler assumes that operator new does not look at g_cut
inline void barrier() { asm volatile("" ::: "memory"); }
struct CUT
{
    CUT() {
        ++g_cut;
        barrier();
    }
    ~CUT() {
        barrier();
        --g_cut;
        barrier();
    }
};
struct Harness  // harness code called back from the code under test
{
    int saved;
    Harness() : saved(g_cut) {
        g_cut = 0;
        barrier();
    }
    ~Harness() {
        barrier();
        g_cut = saved;
        barrier();
    }
};
// the thread simulator's own heap and clock (null elsewhere)
extern void* (*g_alloc_hook)(std::size_t, int);  // (void*)1: not handled
extern int (*g_free_hook)(void*, int);           // 0: not handled
extern u64 (*g_size_hook)(const void*);          // ~0: not handled
extern u64 (*g_clock_hook)();
namespace heap {
void begin_run(u64 seed);
// the k-th (0-based) allocation made by the code under test from now on fails, and the len-1 following ones
void plan(i64 k, i64 len);
void plan_cap(i64 bytes);  // live bytes above this cap fail (<0: none)
void clear_plan();
u64 fired();           // failures injected since plan()
u64 allocs();          // allocations asked for since plan()
u64 live_count();      // tracked live allocations
u64 live_bytes();
void check_empty(const char* props, const char* kind);  // no tracked allocation is alive (leaks are reported and released)
// more is allocated than expected. True: not to be reported yet, the history will be run again (a first use may keep memory)
bool suspect_leak();
bool leak_suspected();
void leak_strict(bool on);
bool is_live(const void* p);
u64 size_of(const void* p);  // size of a live tracked allocation, 0 when there is none
u64 total_failed();
bool huge_refused();   // an allocation above the simulator's size limit was refused since plan()
}  // namespace heap

// ---------------------------------------------------------------- clock seam
namespace clk {
void begin_run(u64 steady_ns, i64 system_ns);
void advance(u64 ns);
void jump_system(i64 ns);
u64 steady();
extern u64 steady_reads, system_reads;
}  // namespace clk

int driver_main(int argc, char** argv, World* w);
}  // namespace sim
