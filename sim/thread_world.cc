// Worlds of C08 and C09: threads that use arenas with metrics, strings, arena strings and vectors, under a simulated
// scheduler. This file is compiled with the instrumentation of -fsanitize=thread (the runtime is sim/thread_rt.cc), so
// every memory access of the code under test is a scheduling point.
#include <fmt/core.h>

#include <boost/assert/source_location.hpp>
#include <deque>
#include <map>
#include <memory>
#include <memory_resource>
#include <sstream>
#include <string>
#include <vector>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include "container/stdb_vector.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"
#include "thread_rt.hpp"

namespace sm = stdb::memory;
namespace sc = stdb::container;
using namespace sim;
using thr::Cut;
using thr::Pause;

namespace {
using Str = sm::string;
using AStr = sm::arena_string;
constexpr int kT = thr::kMax;
constexpr int kBoxes = 3;

enum OpCode { ARENA, ALLOC, RESET, DEL, REPORT, RENDER, GRESET, CLOCK, STR, SEND, RECV, VEC, SVEC, ASTR, OOM, PREEMPT };
const std::vector<OpDesc> kOps = {
  {"arena_new", 4}, {"arena_alloc", 5}, {"arena_reset", 2}, {"arena_delete", 2}, {"report", 1}, {"render", 1}, {"global_reset", 1}, {"clock", 2},
  {"string", 5}, {"send", 4}, {"receive", 3}, {"vector", 5}, {"string_vector", 5}, {"arena_string", 5}, {"fault_oom", 3}, {"preempt", 5},
};

// ------------------------------------------------------------------ models
struct Metrics
{
    u64 init = 0, destruct = 0, alloc = 0, newblock = 0, reset = 0, allocated = 0, resettled = 0, used = 0, wasted = 0;
    u64 ah[8] = {0}, lh[8] = {0};
    std::map<std::string, u64> loc;
    void add(const Metrics& o) {
        init += o.init, destruct += o.destruct, alloc += o.alloc, newblock += o.newblock, reset += o.reset;
        allocated += o.allocated, resettled += o.resettled, used += o.used, wasted += o.wasted;
        for (int i = 0; i < 8; ++i) ah[i] += o.ah[i], lh[i] += o.lh[i];
        for (auto& [k, v] : o.loc) loc[k] += v;
    }
    static void bucket(u64* h, const u64* b, u64 n) {
        for (int i = 0; i < 8; ++i)
            if (n <= b[i]) {
                ++h[i];
                return;
            }
    }
};
const u64 kSizes[8] = {64, 128, 256, 512, 1024, 2048, 4096, 1 << 20}, kLives[8] = {1, 5, 10, 50, 100, 200, 500, 1000};

struct Chunk
{
    const u8* p;
    u64 n;
    u8 v;
};
struct ArenaM
{
    std::unique_ptr<sm::Arena> a;
    std::vector<Chunk> chunks;
    std::string site;
    u64 born = 0;
    std::optional<AStr> s[2];  // on this arena
    std::string sm[2];
    i64 owned = 0, cleanups = 0;  // objects and cleanup functions due
};
struct StrM
{
    Str s;
    std::string m;
    bool pure = true;  // never copied from or to another string
};
struct Th
{
    Metrics local;
    std::unique_ptr<ArenaM> arena[2];
    std::unique_ptr<StrM> str[3];
    sc::stdb_vector<int> vec[2];
    std::vector<int> vm[2];
    sc::stdb_vector<Str> svec;
    std::vector<std::string> svm;
    u64 reports_done = 0;
    std::vector<u32> ops;
};
struct Msg
{
    std::unique_ptr<StrM> s;
};
struct Shared
{
    const Trace* t = nullptr;
    std::unique_ptr<Th> th[kT];
    std::deque<Msg> box[kBoxes];
    Metrics reported;              // of the reports that have ended
    Metrics begun;                 // of the reports that have begun
    bool greset = false;
    int n = 0;
    int in_report = 0;
    u64 max_par_reports = 0;
    std::vector<std::vector<thr::Preempt>> pre;  // per trace position
};
Shared* S;

[[noreturn]] void bad(const char* kind, const std::string& msg) {
    Pause p;
    fail((g_prop + ":" + kind).c_str(), "thread %d: %s", thr::self(), msg.c_str());
}
Th& me() { return *S->th[thr::self()]; }

// ------------------------------------------------------------------ hooks: the model learns what the probes are told
struct Cookie
{
    void* real;
    ArenaM* m;
};
ArenaM* g_constructing[kT];
void* h_init(sm::Arena* a, const boost::source_location&) {
    ArenaM* m;
    std::string* site;
    {
        Pause p;
        m = g_constructing[thr::self()];
        m->born = thr::now_ns();
        site = &m->site;
        me().local.init++;
    }
    auto colon = site->find(':');
    (void)colon;
    static const char* const files[] = {"a.cc", "b.cc", "some/longer/path/of/a/source/file.cc"};
    u32 k = u32((*site)[site->size() - 1] - '0');
    const boost::source_location loc(files[k % 3], k, "f", 1);
    return sm::metrics_probe_on_arena_init(a, loc);
}
void h_alloc(const std::type_info* t, u64 n, void* c) {
    {
        Pause p;
        Metrics& l = me().local;
        ++l.alloc;
        l.allocated += n;
        Metrics::bucket(l.ah, kSizes, n);
        l.loc[g_constructing[thr::self()]->site] += n;
    }
    sm::metrics_probe_on_arena_allocation(t, n, c);
}
void h_block(u64 num, u64 size, void* c) {
    {
        Pause p;
        ++me().local.newblock;
    }
    sm::metrics_probe_on_arena_newblock(num, size, c);
}
void h_reset(sm::Arena* a, void* c, u64 used, u64 wasted) {
    {
        Pause p;
        Metrics& l = me().local;
        ++l.reset;
        l.resettled += used;
        l.wasted += wasted;
    }
    sm::metrics_probe_on_arena_reset(a, c, used, wasted);
}
void* h_destroy(sm::Arena* a, void* c, u64 used, u64 wasted) {
    {
        Pause p;
        Metrics& l = me().local;
        ++l.destruct;
        l.used += used;
        l.wasted += wasted;
        Metrics::bucket(l.lh, kLives, (thr::now_ns() - g_constructing[thr::self()]->born) / 1000000);
    }
    return sm::metrics_probe_on_arena_destruction(a, c, used, wasted);
}
int g_block_fail[kT];  // >0: the block allocations from the k-th on fail
u64 g_block_failed[kT];
void* h_balloc(std::size_t n) {
    Pause p;
    int& f = g_block_fail[thr::self()];
    if (f > 0 && --f == 0) {
        f = 1;
        ++g_block_failed[thr::self()];
        return nullptr;
    }
    return thr::block_alloc(n);
}
void h_bfree(void* q) { thr::block_free(q); }
std::string site_name(i64 k) {
    static const char* const files[] = {"a.cc", "b.cc", "some/longer/path/of/a/source/file.cc"};
    k = i64(u64(k) % 6);
    return std::string(files[k % 3]) + ":" + std::to_string(k);
}

// ------------------------------------------------------------------ checks
std::string show(const std::string& s) { return s.size() <= 24 ? "'" + s + "'" : "'" + s.substr(0, 20) + "...' (" + std::to_string(s.size()) + ")"; }
template <class X>
void same_string(const X& s, const std::string& m, const char* what) {
    std::size_t n;
    const char* d;
    {
        Cut c;
        n = s.size();
        d = s.data();
    }
    if (n != m.size()) bad("value", std::string(what) + " has " + std::to_string(n) + " characters instead of " + std::to_string(m.size()));
    bool eq;
    {
        Cut c;  // read through the instrumentation: others may write to it
        eq = memcmp(d, m.data(), n) == 0;
    }
    if (!eq || d[n] != 0) bad("value", std::string(what) + " holds " + show(std::string(d, n)) + " instead of " + show(m));
}
void check_local() {
    Metrics& m = me().local;
    auto& l = sm::local_arena_metrics;
    auto eq = [](const char* w, u64 a, u64 b) {
        if (a != b) bad("local metrics", std::string("the local ") + w + " is " + std::to_string(a) + ", this thread's history implies " + std::to_string(b));
    };
    eq("init_count", l.init_count, m.init);
    eq("destruct_count", l.destruct_count, m.destruct);
    eq("alloc_count", l.alloc_count, m.alloc);
    eq("newblock_count", l.newblock_count, m.newblock);
    eq("reset_count", l.reset_count, m.reset);
    eq("space_allocated", l.space_allocated, m.allocated);
    eq("space_resettled", l.space_resettled, m.resettled);
    eq("space_used", l.space_used, m.used);
    eq("space_wasted", l.space_wasted, m.wasted);
    for (u64 i = 0; i < 8; ++i) {
        eq("size histogram", l.alloc_size_bucket_counter.at(i), m.ah[i]);
        eq("lifetime histogram", l.destruct_lifetime_bucket_counter.at(i), m.lh[i]);
    }
    std::map<std::string, u64> a, b;
    for (auto& [k, v] : l.arena_alloc_counter)
        if (u64(v)) a[k] = u64(v);
    for (auto& [k, v] : m.loc)
        if (v) b[k] = v;
    if (a != b) bad("local metrics", "the local totals per location differ from this thread's history");
}
void check_global() {
    auto& g = sm::global_arena_metrics;
    Metrics& m = S->reported;
    auto eq = [](const char* w, u64 a, u64 b) {
        if (a != b)
            fail((g_prop + ":global totals").c_str(), "after all threads have ended the global %s is %llu, the reports add up to %llu", w, (unsigned long long)a,
                 (unsigned long long)b);
    };
    eq("init_count", g.init_count, m.init);
    eq("destruct_count", g.destruct_count, m.destruct);
    eq("alloc_count", g.alloc_count, m.alloc);
    eq("newblock_count", g.newblock_count, m.newblock);
    eq("reset_count", g.reset_count, m.reset);
    eq("space_allocated", g.space_allocated, m.allocated);
    eq("space_resettled", g.space_resettled, m.resettled);
    eq("space_used", g.space_used, m.used);
    eq("space_wasted", g.space_wasted, m.wasted);
    for (u64 i = 0; i < 8; ++i) {
        eq("size histogram", g.alloc_size_bucket_counter.at(i), m.ah[i]);
        eq("lifetime histogram", g.destruct_lifetime_bucket_counter.at(i), m.lh[i]);
    }
    std::map<std::string, u64> a, b;
    for (auto& [k, v] : g.arena_alloc_counter)
        if (u64(v)) a[k] = u64(v);
    for (auto& [k, v] : m.loc)
        if (v) b[k] = v;
    for (auto& [k, v] : b) eq(("total of location " + k).c_str(), a.count(k) ? a[k] : 0, v);
    if (a != b) fail((g_prop + ":global totals").c_str(), "the global table holds a location that nobody reported");
}
void check_arena(ArenaM& m) {
    for (auto& c : m.chunks) {
        for (u64 i = 0; i < c.n; i += c.n > 64 ? 17 : 1)
            if (c.p[i] != c.v) bad("value", "a byte written to arena memory has changed");
        sm::ArenaContainStatus st;
        {
            Cut k;
            st = m.a->check(reinterpret_cast<const char*>(c.p));
        }
        if (st != sm::ArenaContainStatus::BlockUsed) bad("value", "the arena does not know its own memory any more");
    }
    for (int i = 0; i < 2; ++i)
        if (m.s[i]) same_string(*m.s[i], m.sm[i], "an arena string");
}
void check_all() {
    Th& t = me();
    for (auto& a : t.arena)
        if (a) check_arena(*a);
    for (auto& s : t.str)
        if (s) same_string(s->s, s->m, "a string");
    for (int i = 0; i < 2; ++i) {
        std::size_t n;
        const int* d;
        {
            Cut c;
            n = t.vec[i].size();
            d = t.vec[i].data();
        }
        if (n != t.vm[i].size() || (n && memcmp(d, t.vm[i].data(), n * sizeof(int)) != 0)) bad("value", "a vector does not hold what this thread put into it");
    }
    {
        std::size_t n;
        {
            Cut c;
            n = t.svec.size();
        }
        if (n != t.svm.size()) bad("value", "a vector of strings does not have the size this thread gave it");
        for (std::size_t i = 0; i < n; ++i) same_string(t.svec[i], t.svm[i], "a string in a vector");
    }
    check_local();
}

// runs f as code under test; false when it threw bad_alloc because of an injected failure
bool g_oomed[kT];
template <class F>
bool attempt(F f) {
    try {
        Cut c;
        f();
    } catch (const std::bad_alloc&) {
        if (thr::oom_fired() == 0) bad("bad_alloc", "an operation threw bad_alloc although memory was available");
        g_oomed[thr::self()] = true;
        count("fault.malloc");
        return false;
    }
    return true;
}

// code under test that must not fail: an allocation failure still due is called off first
struct Sure
{
    Sure() { thr::oom(-1, 0); }
    Cut c;
};

// ------------------------------------------------------------------ operations
void op_arena(const Op& o) {
    auto& slot = me().arena[u64(o.a[1]) % 2];
    if (slot) return;
    auto m = std::make_unique<ArenaM>();
    m->site = site_name(o.a[2]);
    sm::Arena::Options opt = sm::Arena::Options::GetDefaultOptions();
    opt.block_alloc = &h_balloc;
    opt.block_dealloc = &h_bfree;
    opt.normal_block_size = std::size_t(256) << (u64(o.a[3]) % 4);
    opt.suggested_init_block_size = opt.normal_block_size;
    opt.huge_block_size = 64 << 10;
    opt.on_arena_init = &h_init;
    opt.on_arena_allocation = &h_alloc;
    opt.on_arena_newblock = &h_block;
    opt.on_arena_reset = &h_reset;
    opt.on_arena_destruction = &h_destroy;
    g_constructing[thr::self()] = m.get();
    thr::oom(-1, 0);
    {
        Cut c;
        m->a = std::make_unique<sm::Arena>(opt);
    }
    slot = std::move(m);
}
void check_cleaned(ArenaM& m) {
    if (m.owned != 0 || m.cleanups != 0)
        bad("cleanup", std::to_string(m.owned) + " objects and " + std::to_string(m.cleanups) + " cleanup functions are left over");
}
void drop(std::unique_ptr<ArenaM>& slot) {
    if (!slot) return;
    g_constructing[thr::self()] = slot.get();
    Cut c;
    for (auto& s : slot->s) s.reset();
    slot->a.reset();
    Pause p;
    check_cleaned(*slot);
    slot.reset();
}
struct Owned  // deleted by its arena
{
    ArenaM* m;
    explicit Owned(ArenaM* a) : m(a) {
        Pause p;
        ++m->owned;
    }
    ~Owned() {
        Pause p;
        --m->owned;
    }
};
struct Droppy  // lives in an arena, has a destructor
{
    ArenaFullManagedTag;
    ArenaM* m;
    u64 pad[3];
    explicit Droppy(ArenaM* a) : m(a) {
        Pause p;
        ++m->owned;
    }
    ~Droppy() {
        Pause p;
        --m->owned;
    }
};
void cleanup(void*) {
    Pause p;
    --g_constructing[thr::self()]->cleanups;
}
struct Node
{
    u64 v[3];
    explicit Node(u64 x) : v{x, x * 3, x ^ 5} {}
};
void op_alloc(const Op& o) {
    auto& slot = me().arena[u64(o.a[1]) % 2];
    if (!slot) return;
    g_constructing[thr::self()] = slot.get();
    u64 n = 1 + u64(o.a[2]) % 5000;
    char* p = nullptr;
    Node* q = nullptr;
    bool none = false;
    u64 total = 1, left = 0;
    int kind = int(u64(o.a[3]) % 3);
    if (o.a[3] >= 10000) kind = 3 + int(u64(o.a[3]) % 6);
    g_block_fail[thr::self()] = int(o.a[4]);
    g_block_failed[thr::self()] = 0;
    {
        Cut c;
        if (kind == 0) p = slot->a->AllocateAligned(n);
        if (kind == 1) q = slot->a->Create<Node>(n);
        if (kind == 2) p = slot->a->AllocateAligned(n, 16);
        if (kind == 3) p = reinterpret_cast<char*>(slot->a->CreateArray<std::uint16_t>(n / 2 + 1));
        if (kind == 4) p = slot->a->AllocateAlignedAndAddCleanup(n, &cleanup);
        if (kind == 5) {
            auto* z = new Owned(slot.get());
            if (!slot->a->Own(z)) {
                none = true;
                delete z;
            }
        }
        if (kind == 6) {
            try {
                p = static_cast<char*>(slot->a->get_memory_resource()->allocate(n, 32));
            } catch (const std::bad_alloc&) {
            }
        }
        if (kind == 7) {
            slot->a->get_memory_resource()->deallocate(slot.get(), 1);
            total = slot->a->SpaceAllocated(), left = slot->a->SpaceRemains();
        }
        if (kind == 8) {
            if (slot->a->Create<Droppy>(slot.get()) == nullptr) none = true;
        }
    }
    g_block_fail[thr::self()] = 0;
    if (kind <= 4 || kind == 6) none = kind == 1 ? q == nullptr : p == nullptr;
    if (kind == 3) n = (n / 2 + 1) * 2;
    if (left > total) bad("value", "an arena has more space left than it has");
    if (none) {
        if (g_block_failed[thr::self()] == 0) bad("null", "an allocation failed although memory was available");
        count("fault.block");
        return;
    }
    if (kind == 1) {
        if (q->v[0] != n || q->v[1] != n * 3) bad("value", "an object created in an arena has other values");
        return;
    }
    if (!p) return;
    if (kind == 4) ++slot->cleanups;
    u8 v = u8(n * 7 + u64(thr::self()));
    {
        Cut c;
        memset(p, v, n);
    }
    slot->chunks.push_back(Chunk{reinterpret_cast<u8*>(p), n, v});
}
void op_reset(const Op& o) {
    auto& slot = me().arena[u64(o.a[1]) % 2];
    if (!slot) return;
    g_constructing[thr::self()] = slot.get();
    Cut c;
    for (auto& s : slot->s) s.reset();
    slot->a->Reset();
    Pause p;
    check_cleaned(*slot);
    slot->chunks.clear();
}
void op_report() {
    Metrics m = me().local;
    S->begun.add(m);
    ++S->in_report;
    if (u64(S->in_report) > S->max_par_reports) S->max_par_reports = u64(S->in_report);
    // an injected failure makes the report throw; it is repeated then
    bool ok = attempt([] { sm::local_arena_metrics.report_to_global_metrics(); });
    --S->in_report;
    if (ok) {
        S->reported.add(m);
        me().local = Metrics();
    } else if (!S->greset) {
        // nothing was reported
        auto sub = [](u64& a, u64 b) { a -= b; };
        sub(S->begun.init, m.init), sub(S->begun.destruct, m.destruct), sub(S->begun.alloc, m.alloc), sub(S->begun.newblock, m.newblock);
        sub(S->begun.reset, m.reset), sub(S->begun.allocated, m.allocated), sub(S->begun.resettled, m.resettled);
        sub(S->begun.used, m.used), sub(S->begun.wasted, m.wasted);
    }
}
void op_render() {
    Metrics lo = S->reported;
    std::string s;
    if (!attempt([&] { s = sm::global_arena_metrics.string(); })) return;
    Metrics hi = S->begun;
    if (S->greset) return;
    auto in = [&](const char* key, u64 l, u64 h) {
        auto at = s.find(std::string("  ") + key + ": ");
        if (at == std::string::npos) return;
        u64 v = strtoull(s.c_str() + at + strlen(key) + 4, nullptr, 10);
        if (v < l || v > h)
            bad("render", std::string("rendered ") + key + " is " + std::to_string(v) + ", but the finished reports add up to " + std::to_string(l) +
                            " and the begun ones to " + std::to_string(h));
    };
    in("init_count", lo.init, hi.init);
    in("alloc_count", lo.alloc, hi.alloc);
    in("newblock_count", lo.newblock, hi.newblock);
    in("destruct_count", lo.destruct, hi.destruct);
    in("reset_count", lo.reset, hi.reset);
    in("space_allocated", lo.allocated, hi.allocated);
    in("space_used", lo.used, hi.used);
}
std::string text(u64 n, u64 seed) {
    std::string s(n, 'a');
    for (u64 i = 0; i < n; ++i) s[i] = char('a' + (seed + i * (seed % 7 + 1)) % 26);
    return s;
}
u64 len(i64 v) {
    static const u64 l[] = {0, 1, 5, 15, 22, 23, 24, 25, 60, 200, 253, 254, 255, 256, 257, 300, 600};
    return l[u64(v) % 17];
}
// operations that strings and arena strings have in common; j: any number that chooses positions
constexpr int kMore = 18;
template <class X>
void more_string(X& s, std::string& m, int k, u64 n, u64 j, const std::string& x) {
    const u64 i = m.empty() ? 0 : j % (m.size() + 1), cnt = j / 7 % 30;
    auto same = [](const char* what, u64 got, u64 want) {
        if (got != want) bad("value", std::string(what) + " returns " + std::to_string(got) + " instead of " + std::to_string(want));
    };
    switch (k) {
        case 0:
            if (attempt([&] { s.assign(x.data(), x.size()); })) m = x;
            break;
        case 1:
            if (attempt([&] { s.replace(i, cnt, x.data(), x.size()); })) m.replace(i, cnt, x);
            break;
        case 2:
            for (u64 q = 0; q <= cnt; ++q)
                if (attempt([&] { s.push_back(char('A' + q)); })) m.push_back(char('A' + q));
            break;
        case 3:
            if (!m.empty() && attempt([&] { s.pop_back(); })) m.pop_back();
            break;
        case 4:
            if (attempt([&] { s.resize(n, 'q'); })) m.resize(n, 'q');
            break;
        case 5: {
            u64 r[6];
            std::string w = x.substr(0, 1 + j % 4);
            {
                Sure c;
                r[0] = s.rfind(w.data(), i, w.size());
                r[1] = s.find_first_of(w.data(), i, w.size());
                r[2] = s.find_last_of(w.data(), i, w.size());
                r[3] = s.find_first_not_of(w.data(), i, w.size());
                r[4] = s.find_last_not_of(w.data(), i, w.size());
                r[5] = s.find(w.empty() ? 'a' : w[0], i);
            }
            same("rfind", r[0], m.rfind(w.data(), i, w.size()));
            same("find_first_of", r[1], m.find_first_of(w.data(), i, w.size()));
            same("find_last_of", r[2], m.find_last_of(w.data(), i, w.size()));
            same("find_first_not_of", r[3], m.find_first_not_of(w.data(), i, w.size()));
            same("find_last_not_of", r[4], m.find_last_not_of(w.data(), i, w.size()));
            same("find", r[5], m.find(w.empty() ? 'a' : w[0], i));
            break;
        }
        case 6: {
            int r;
            bool b, e, h;
            std::string w = j % 2 ? m.substr(i, cnt) : x;
            {
                Sure c;
                r = s.compare(i, cnt, w.data(), w.size());
                b = s.starts_with(w.c_str());
                e = s.ends_with(std::string_view(w));
                h = s.contains(w.c_str());
            }
            int q = m.compare(i, cnt, w);
            same("compare", u64(r < 0 ? 1 : r > 0 ? 2 : 0), u64(q < 0 ? 1 : q > 0 ? 2 : 0));
            same("starts_with", b, m.starts_with(w));
            same("ends_with", e, m.ends_with(w));
            same("contains", h, m.find(w) != std::string::npos);
            break;
        }
        case 7:
            if (attempt([&] { s.shrink_to_fit(); })) {
            }
            break;
        case 8:
            if (attempt([&] { s.append(n, 'w'); })) m.append(n, 'w');
            break;
        case 9:
            if (m.size() < 2000 && attempt([&] { s.append(s); })) m += std::string(m);
            break;
        case 10:
            if (m.size() < 2000 && attempt([&] { s.insert(i, s.c_str() + m.size() / 2); })) m.insert(i, std::string(m, m.size() / 2));
            break;
        case 11: {
            char ch = 0;
            bool thrown = false;
            {
                Sure c;
                try {
                    ch = std::as_const(s).at(m.size() + cnt);
                } catch (const std::out_of_range&) {
                    thrown = true;
                }
            }
            if (!thrown) bad("value", "at() accepts an index out of range and returns " + std::to_string(int(ch)));
            break;
        }
        case 12: {
            char buf[40];
            u64 r;
            {
                Sure c;
                r = s.copy(buf, cnt, i);
            }
            if (std::string(buf, r) != m.substr(i, cnt)) bad("value", "copy() delivers other characters");
            break;
        }
        case 13: {
            std::string r;
            {
                Sure c;
                r = fmt::format("{}", s);
            }
            if (r != m) bad("value", "formatting a string gives " + show(r) + " instead of " + show(m));
            break;
        }
        case 14: {
            std::string r;
            {
                Sure c;
                r = s.toStdString();
            }
            if (r != m) bad("value", "toStdString gives " + show(r) + " instead of " + show(m));
            break;
        }
        case 15: {
            std::string r;
            {
                Sure c;
                std::ostringstream os;
                os << s;
                r = os.str();
            }
            if (r != m) bad("value", "writing a string to a stream gives " + show(r) + " instead of " + show(m));
            break;
        }
        case 16: {
            std::string in = x + "\n" + m + " z";
            {
                Sure c;
                std::istringstream is(in);
                getline(is, s);
            }
            m = x;
            break;
        }
        case 17: {
            std::string in = "  " + x + " " + m;
            if (x.empty()) break;
            {
                Sure c;
                std::istringstream is(in);
                is >> s;
            }
            m = x;
            break;
        }
        default: break;
    }
}
void op_str(const Op& o) {
    Th& t = me();
    auto& a = t.str[u64(o.a[1]) % 3];
    auto& b = t.str[u64(o.a[4]) % 3];
    u64 n = len(o.a[3]);
    std::string x = text(n, u64(o.a[3]));
    int k = int(u64(o.a[2]) % (16 + kMore));
    if (!a || k == 0) {
        auto m = std::make_unique<StrM>();
        if (!attempt([&] { m->s = Str(x.data(), x.size()); })) return;
        m->m = x;
        Sure c;
        a = std::move(m);
        return;
    }
    switch (k) {
        case 1:
            if (attempt([&] { a->s.append(x.data(), x.size()); })) a->m += x;
            break;
        case 2:  // the copy shares a large buffer with its source
            if (b && b != a) {
                std::unique_ptr<StrM> m;
                if (!attempt([&] { m.reset(new StrM{Str(b->s), {}, false}); })) return;
                m->m = b->m;
                b->pure = false;
                Sure c;
                a = std::move(m);
            }
            break;
        case 3: {
            Sure c;
            a->s.clear();
            Pause p;
            a->m.clear();
            break;
        }
        case 4: {
            std::unique_ptr<StrM> m(new StrM);
            if (!attempt([&] { m->s = a->s.clone(); })) return;
            m->m = a->m;
            Sure c;
            b = std::move(m);
            break;
        }
        case 5:
            if (!a->m.empty()) {
                u64 i = n % a->m.size();
                if (attempt([&] { a->s[i] = 'Z'; })) a->m[i] = 'Z';
            }
            break;
        case 6: {
            u64 i = a->m.empty() ? 0 : n % a->m.size();
            if (attempt([&] { a->s.insert(i, x.data(), x.size()); })) a->m.insert(i, x);
            break;
        }
        case 7: {
            u64 i = a->m.empty() ? 0 : n % a->m.size();
            if (attempt([&] { a->s.erase(i, 7); })) a->m.erase(i, 7);
            break;
        }
        case 8:
            if (b) {
                bool eq;
                int f;
                std::size_t h1, h2;
                {
                    Sure c;
                    eq = a->s == b->s;
                    f = a->s.find(x.data(), 0, x.size()) != Str::npos;
                    h1 = std::hash<Str>()(a->s);
                    h2 = std::hash<Str>()(b->s);
                }
                if (eq != (a->m == b->m) || f != int(a->m.find(x) != std::string::npos) || (eq && h1 != h2)) bad("value", "comparing, searching or hashing strings gives another result");
            }
            break;
        case 9:
            if (attempt([&] { a->s.reserve(n * 2); })) {
            }
            break;
        case 10: {
            Str r;
            if (!attempt([&] { r = a->s + Str(x.data(), x.size()); })) return;
            same_string(r, a->m + x, "a concatenation");
            Sure c;
            r.clear();
            r.shrink_to_fit();
            break;
        }
        case 11: {
            Str r;
            u64 i = a->m.empty() ? 0 : n % a->m.size();
            if (!attempt([&] { r = a->s.substr(i, 20); })) return;
            same_string(r, a->m.substr(i, 20), "a substring");
            break;
        }
        case 12:
            if (b && b != a) {
                if (!attempt([&] { a->s = b->s; })) return;
                a->m = b->m;
                a->pure = b->pure = false;
            }
            break;
        case 13:
            if (b && b != a) {
                Sure c;
                a->s.swap(b->s);
                Pause p;
                std::swap(a->m, b->m);
                std::swap(a->pure, b->pure);
            }
            break;
        case 14: {
            Str r, q;
            if (!attempt([&] { r = 'c' + a->s + "tail" + 'd'; })) return;
            same_string(r, "c" + a->m + "taild", "a concatenation");
            if (!attempt([&] { q = x.c_str() + std::move(r); })) return;
            same_string(q, x + "c" + a->m + "taild", "a concatenation");
            Sure c;
            for (Str* z : {&r, &q}) {
                z->clear();
                z->shrink_to_fit();
            }
            break;
        }
        case 15:
            if (b && b != a) {
                bool lt, le, ne;
                {
                    Sure c;
                    lt = a->s < b->s;
                    le = a->s <= b->s;
                    ne = a->s != b->s.c_str();
                }
                if (lt != (a->m < b->m) || le != (a->m <= b->m) || ne != (a->m != b->m)) bad("value", "ordering strings gives another result");
            }
            break;
        default: more_string(a->s, a->m, k - 16, n, u64(o.a[3]) / 17, x);
    }
}
void op_send(const Op& o) {
    Th& t = me();
    auto& a = t.str[u64(o.a[1]) % 3];
    int box = int(u64(o.a[2]) % kBoxes);
    if (!a) return;
    std::unique_ptr<StrM> m;
    if (o.a[3] % 2 == 0 || !a->pure) {
        m.reset(new StrM);
        std::optional<Str> c;
        if (!attempt([&] { c.emplace(a->s.clone()); })) return;
        {
            Sure k;
            m->s.~Str();
            new (&m->s) Str(std::move(*c));
            c.reset();
        }
        m->m = a->m;
        count("handover.clone");
    } else {
        m = std::move(a);
        count("handover.move");
    }
    S->box[box].push_back(Msg{std::move(m)});
    thr::hb_release(box);
}
void op_recv(const Op& o) {
    int box = int(u64(o.a[2]) % kBoxes);
    if (S->box[box].empty()) return;
    thr::hb_acquire(box);
    auto m = std::move(S->box[box].front().s);
    S->box[box].pop_front();
    auto& a = me().str[u64(o.a[1]) % 3];
    Sure c;
    a = std::move(m);
}
bool divides(int e, int q) { return e % q == 0; }
bool (*volatile g_divides)(int, int) = &divides;  // nothing is known about it where it is called
void op_vec(const Op& o) {
    Th& t = me();
    int i = int(u64(o.a[1]) % 2);
    auto& v = t.vec[i];
    auto& m = t.vm[i];
    u64 n = u64(o.a[3]) % 20;
    int x = int(o.a[3]);
    u64 at = m.empty() ? 0 : u64(o.a[4]) % m.size();
    switch (u64(o.a[2]) % 22) {
        case 0:
        case 1:
            for (u64 k = 0; k <= n; ++k)
                if (attempt([&] { v.push_back(x + int(k)); })) m.push_back(x + int(k));
            break;
        case 2:
            if (attempt([&] { (void)v.insert(v.cbegin() + i64(at), x); })) m.insert(m.begin() + i64(at), x);
            break;
        case 3:
            if (!m.empty()) {
                Sure c;
                (void)v.erase(v.cbegin() + i64(at));
                Pause p;
                m.erase(m.begin() + i64(at));
            }
            break;
        case 4:
            if (attempt([&] { v.resize(n, x); })) m.resize(n, x);
            break;
        case 5:
            if (attempt([&] { t.vec[1 - i] = v; })) t.vm[1 - i] = m;
            break;
        case 6:
            if (attempt([&] { v.reserve(n * 3); })) {
            }
            break;
        case 7:
            if (attempt([&] { v.shrink_to_fit(); })) {
            }
            break;
        case 8: {
            Sure c;
            v.swap(t.vec[1 - i]);
            Pause p;
            m.swap(t.vm[1 - i]);
            break;
        }
        case 9:
            if (attempt([&] { v.assign(n, x); })) m.assign(n, x);
            break;
        case 10: {
            std::vector<int> src(n, x);
            for (u64 k = 0; k < n; ++k) src[k] += int(k);
            if (attempt([&] { v.assign(src.begin(), src.end()); })) m = src;
            break;
        }
        case 11:
            if (attempt([&] { (void)v.emplace(std::size_t(at), x); })) m.insert(m.begin() + i64(at), x);
            break;
        case 12: {
            u64 r, w = 0;
            int val = m.empty() ? x : m[at];
            {
                Sure c;
                r = v.erase(val);
            }
            w = std::erase(m, val);
            if (r != w) bad("value", "erasing a value from a vector removes " + std::to_string(r) + " elements instead of " + std::to_string(w));
            break;
        }
        case 13: {
            u64 r, w;
            int q = 2 + x % 3;
            {
                Sure c;
                r = v.erase_if([&](const int& e) { return g_divides(e, q); });
            }
            w = std::erase_if(m, [&](const int& e) { return e % q == 0; });
            if (r != w) bad("value", "erase_if removes " + std::to_string(r) + " elements instead of " + std::to_string(w));
            break;
        }
        case 14:
            if (!m.empty()) {
                {
                    Sure c;
                    v.pop_back();
                }
                m.pop_back();
            }
            break;
        case 15: {
            std::optional<sc::stdb_vector<int>> z;
            if (!attempt([&] { z.emplace(v); })) break;
            bool eq, lt;
            {
                Sure c;
                eq = *z == v;
                if (!z->empty()) z->back() -= 1;
                lt = *z < v;
                z.reset();
            }
            if (!eq || lt != !m.empty()) bad("value", "comparing a vector with its copy gives another result");
            break;
        }
        case 16:
            if (attempt([&] { (void)v.insert(v.cbegin() + i64(at), std::size_t(n), x); })) m.insert(m.begin() + i64(at), n, x);
            break;
        case 17: {
            std::vector<int> src(n, x);
            for (u64 k = 0; k < n; ++k) src[k] -= int(k);
            if (attempt([&] { (void)v.insert(v.cbegin() + i64(at), src.begin(), src.end()); })) m.insert(m.begin() + i64(at), src.begin(), src.end());
            break;
        }
        case 18: {
            u64 e = std::min<u64>(m.size(), at + n);
            {
                Sure c;
                (void)v.erase(v.cbegin() + i64(at), v.cbegin() + i64(e));
            }
            m.erase(m.begin() + i64(at), m.begin() + i64(e));
            break;
        }
        case 19: {
            Sure c;
            v.clear();
            Pause p;
            m.clear();
            break;
        }
        case 20: {
            u64 sum = 0, want = 0;
            {
                Sure c;
                for (int e : v) sum += u64(e);
                for (auto it = v.rbegin(); it != v.rend(); ++it) sum += 3 * u64(*it);
            }
            for (int e : m) want += 4 * u64(e);
            if (sum != want) bad("value", "iterating over a vector delivers other elements");
            break;
        }
        case 21:
            if (!m.empty() && attempt([&] { v.emplace_back(v[at]); })) m.push_back(m[at]);
            break;
        default: break;
    }
}
void op_svec(const Op& o) {
    Th& t = me();
    auto& v = t.svec;
    auto& m = t.svm;
    std::string x = text(len(o.a[3]), u64(o.a[3]));
    u64 at = m.empty() ? 0 : u64(o.a[4]) % m.size();
    switch (u64(o.a[2]) % 11) {
        case 0:
        case 1:
            if (attempt([&] { v.emplace_back(x.data(), x.size()); })) m.push_back(x);
            break;
        case 2: {
            std::unique_ptr<StrM>& a = t.str[u64(o.a[1]) % 3];
            if (!a) break;
            a->pure = false;
            if (attempt([&] { v.push_back(a->s); })) m.push_back(a->m);
            break;
        }
        case 3:
            if (!m.empty()) {
                Sure c;
                (void)v.erase(v.cbegin() + i64(at));
                Pause p;
                m.erase(m.begin() + i64(at));
            }
            break;
        case 4:
            if (!m.empty() && attempt([&] { v[at].append(x.data(), x.size()); })) m[at] += x;
            break;
        case 5: {
            Sure c;
            v.clear();
            Pause p;
            m.clear();
            break;
        }
        case 6: {
            std::optional<Str> z;
            if (!attempt([&] { z.emplace(x.data(), x.size()); })) break;
            if (attempt([&] { (void)v.insert(v.cbegin() + i64(at), std::move(*z)); })) m.insert(m.begin() + i64(at), x);
            Sure c;
            z.reset();
            break;
        }
        case 7:
            if (attempt([&] { v.resize(at); })) m.resize(at);
            break;
        case 8: {
            std::optional<sc::stdb_vector<Str>> z;
            if (!attempt([&] { z.emplace(v); })) break;
            bool eq;
            {
                Sure c;
                eq = *z == v;
                v = std::move(*z);
                z.reset();
            }
            if (!eq) bad("value", "a copy of a vector of strings differs from it");
            break;
        }
        case 9: {
            u64 r, w;
            {
                Sure c;
                r = v.erase_if([&](const Str& e) { return e.size() % 3 == 1; });
            }
            w = std::erase_if(m, [&](const std::string& e) { return e.size() % 3 == 1; });
            if (r != w) bad("value", "erase_if removes " + std::to_string(r) + " strings instead of " + std::to_string(w));
            break;
        }
        case 10:
            if (attempt([&] { v.reserve(at * 2 + 5); }) && attempt([&] { v.shrink_to_fit(); })) {
            }
            break;
        default: break;
    }
}
void op_astr(const Op& o) {
    auto& slot = me().arena[u64(o.a[1]) % 2];
    if (!slot) return;
    g_constructing[thr::self()] = slot.get();
    int i = int(u64(o.a[4]) % 2);
    auto& s = slot->s[i];
    auto& m = slot->sm[i];
    u64 n = len(o.a[3]);
    std::string x = text(n, u64(o.a[3]));
    int k = int(u64(o.a[2]) % (8 + kMore));
    std::pmr::polymorphic_allocator<char> al(slot->a->get_memory_resource());
    if (!s || k == 0) {
        std::optional<AStr> z;
        if (!attempt([&] { z.emplace(x.data(), x.size(), al); })) return;
        Sure c;
        s.reset();
        s.emplace(std::move(*z));
        z.reset();
        Pause p;
        m = x;
        return;
    }
    switch (k) {
        case 1:
            if (attempt([&] { s->append(x.data(), x.size()); })) m += x;
            break;
        case 2:
            if (slot->s[1 - i]) {
                std::optional<AStr> z;
                if (!attempt([&] { z.emplace(*slot->s[1 - i]); })) return;
                Sure c;
                s.reset();
                s.emplace(std::move(*z));
                z.reset();
                Pause p;
                m = slot->sm[1 - i];
            }
            break;
        case 3:
            if (!m.empty() && attempt([&] { (*s)[n % m.size()] = 'Y'; })) m[n % m.size()] = 'Y';
            break;
        case 4: {
            Sure c;
            s.reset();
            break;
        }
        case 5: {
            u64 at = m.empty() ? 0 : n % m.size();
            if (attempt([&] { s->insert(at, x.data(), x.size()); })) m.insert(at, x);
            break;
        }
        case 6: {
            u64 at = m.empty() ? 0 : n % m.size();
            if (attempt([&] { s->erase(at, 9); })) m.erase(at, 9);
            break;
        }
        case 7:
            if (slot->s[1 - i]) {
                auto& b = *slot->s[1 - i];
                auto& bm = slot->sm[1 - i];
                bool eq, lt;
                std::size_t h1, h2;
                {
                    Sure c;
                    eq = *s == b;
                    lt = *s < b;
                    h1 = std::hash<AStr>()(*s);
                    h2 = std::hash<AStr>()(b);
                    s->swap(b);
                }
                if (eq != (m == bm) || lt != (m < bm) || (eq && h1 != h2)) bad("value", "comparing or hashing arena strings gives another result");
                m.swap(bm);
            }
            break;
        default: more_string(*s, m, k - 8, n, u64(o.a[3]) / 17, x);
    }
}

void one(const Op& o) {
    switch (o.code) {
        case ARENA: op_arena(o); break;
        case ALLOC: op_alloc(o); break;
        case RESET: op_reset(o); break;
        case DEL: drop(me().arena[u64(o.a[1]) % 2]); break;
        case REPORT: op_report(); break;
        case RENDER: op_render(); break;
        case GRESET:
            if (S->greset) {
                Cut c;
                sm::global_arena_metrics.reset();
            }
            break;
        case CLOCK: thr::advance(u64(o.a[1]) * 1000000); break;
        case STR: op_str(o); break;
        case SEND: op_send(o); break;
        case RECV: op_recv(o); break;
        case VEC: op_vec(o); break;
        case SVEC: op_svec(o); break;
        case ASTR: op_astr(o); break;
        default: break;
    }
}
int owner(const Op& o) { return int(u64(o.a[0]) % u64(S->n)); }

void body(int id) {
    Th& t = *S->th[id];
    i64 oom_k = -1, oom_l = 0;
    for (u32 pos : t.ops) {
        const Op& o = S->t->ops[pos];
        if (o.code == OOM) {
            oom_k = o.a[1], oom_l = o.a[2];
            continue;
        }
        auto& pre = S->pre[pos];
        thr::op_begin(pos, pre.data(), int(pre.size()));
        g_slot->step.store(pos);
        logf("%3u t%d %s %lld %lld %lld %lld\n", pos, id, kOps[size_t(o.code)].name, (long long)o.a[1], (long long)o.a[2], (long long)o.a[3], (long long)o.a[4]);
        ev(u64(o.code) * 8 + u64(id) + 1);
        bool arm = oom_k >= 0 && (o.code == STR || o.code == VEC || o.code == SVEC || o.code == ASTR || o.code == REPORT || o.code == RENDER || o.code == SEND);
        thr::oom(arm ? oom_k : -1, arm ? oom_l : 0);
        if (arm) oom_k = -1;
        one(o);
        thr::oom(-1, 0);
        if (g_prop == "C09") check_all();
        thr::op_end();
    }
    // the thread ends: what it owns goes away, and it reports for the last time
    thr::op_begin(u32(S->t->ops.size()) + u32(id), nullptr, 0);
    g_slot->step.store(S->t->ops.size());
    if (g_prop == "C09") check_all();
    {
        Cut c;
        for (auto& s : t.str) s.reset();
        for (auto& v : t.vec) v = sc::stdb_vector<int>();
        t.svec = sc::stdb_vector<Str>();
    }
    for (auto& a : t.arena) drop(a);
    op_report();
    check_local();
    thr::op_end();
    thr::no_more_ops();
}

template <typename X>
void fresh(X& x) {
    x.~X();
    new (&x) X();
}

struct ThreadWorld final : World
{
    const char* name() const override { return "thread"; }
    bool isolated() const override { return true; }
    const std::vector<OpDesc>& ops() const override { return kOps; }
    const char* components() const override {
        return "real: arena/arena.hpp, arena/arena.cc, arena/metrics.hpp, arena/metrics.cc, string/string.hpp, string/arena_string.hpp, "
               "container/stdb_vector.hpp, real threads and thread-local storage; simulated: thread scheduling, pthread locks, once and static "
               "initialisation, malloc/operator new, block allocator, clock (one per thread); not instrumented: libstdc++ and fmt binaries";
    }
    void generate(Rng& r, const std::string& prop, Trace& t) override {
        bool c8 = prop == "C08";
        int n = r.chance(1, 2) ? 2 : 2 + int(r.below(kT - 1));
        t.cfg["threads"] = n;
        t.cfg["greset"] = c8 && r.chance(1, 8);
        std::vector<u32> w(kOps.size(), 0);
        w[ARENA] = 4, w[ALLOC] = 8, w[RESET] = 2, w[DEL] = 2, w[CLOCK] = 1;
        if (c8) {
            w[REPORT] = 10, w[RENDER] = 4, w[OOM] = r.chance(1, 3) ? 4 : 0;
            if (t.cfg["greset"]) w[GRESET] = 3;
        } else {
            w[REPORT] = 1, w[STR] = 16, w[SEND] = 5, w[RECV] = 5, w[VEC] = 8, w[SVEC] = 5, w[ASTR] = 8, w[OOM] = r.chance(1, 3) ? 4 : 0;
            for (auto& x : w)
                if (x && r.chance(1, 6)) x = 0;
            w[STR] += 1;
        }
        auto add = [&](int code, std::initializer_list<i64> a) {
            Op o;
            o.code = code;
            int i = 0;
            for (i64 x : a) o.a[i++] = x;
            t.ops.push_back(o);
        };
        auto sd = [&] { return i64(r.below(10000)); };
        auto sites = r.range(1, 6);
        int m = 3 + int(r.below(r.chance(1, 3) ? 40 : 16));
        // schedule: how often and how finely threads are preempted
        u32 dense = u32(r.below(4));
        auto preempt = [&](i64 th) {
            i64 hi = i64(1) << r.range(1, c8 ? 9 : 11);
            bool per = dense == 3 && r.chance(1, 2);
            add(PREEMPT, {th, r.range(1, hi), i64(r.below(u64(n))), r.range(1, 3), per ? r.range(1, 40) : 0});
        };
        for (int i = 0; i < n; ++i)
            if (c8 || r.chance(1, 2)) {
                add(ARENA, {i, 0, i64(r.below(u64(sites))), sd()});
                if (c8) add(ALLOC, {i, 0, r.range(1, 600), sd(), 0});
            }
        for (int i = 0; i < m; ++i) {
            int code = int(r.weighted(w));
            i64 th = i64(r.below(u64(n)));
            switch (code) {
                case ARENA: add(ARENA, {th, i64(r.below(2)), i64(r.below(u64(sites))), sd()}); break;
                case ALLOC: add(ALLOC, {th, i64(r.below(2)), r.chance(1, 4) ? r.range(0, 5000) : r.range(0, 200), sd() + (r.chance(1, 2) ? 10000 : 0), r.chance(1, 10) ? r.range(1, 2) : 0}); break;
                case RESET: add(RESET, {th, i64(r.below(2))}); break;
                case DEL: add(DEL, {th, i64(r.below(2))}); break;
                case REPORT: add(REPORT, {th}); break;
                case RENDER: add(RENDER, {th}); break;
                case GRESET: add(GRESET, {th}); break;
                case CLOCK: add(CLOCK, {th, r.range(0, 1200)}); break;
                case STR: add(STR, {th, i64(r.below(3)), i64(r.below(16 + kMore)), sd(), i64(r.below(3))}); break;
                case SEND: add(SEND, {th, i64(r.below(3)), i64(r.below(kBoxes)), i64(r.below(2))}); break;
                case RECV: add(RECV, {th, i64(r.below(3)), i64(r.below(kBoxes))}); break;
                case VEC: add(VEC, {th, i64(r.below(2)), i64(r.below(22)), sd(), sd()}); break;
                case SVEC: add(SVEC, {th, i64(r.below(3)), i64(r.below(11)), sd(), sd()}); break;
                case ASTR: add(ASTR, {th, i64(r.below(2)), i64(r.below(8 + kMore)), sd(), i64(r.below(2))}); break;
                case OOM: add(OOM, {th, r.range(0, 3), r.chance(1, 2) ? 1 : 50}); continue;
                default: break;
            }
            int k = dense == 0 ? int(r.chance(1, 4)) : dense == 1 ? int(r.below(3)) : dense == 2 ? int(r.below(6)) : int(r.below(3));
            while (k-- > 0) preempt(th);
        }
    }
    void run(const Trace& t) override {
        S = new Shared;
        S->t = &t;
        S->n = int(std::max<i64>(1, std::min<i64>(kT, t.c("threads", 2))));
        S->greset = t.c("greset") != 0;
        S->pre.resize(t.ops.size());
        for (int i = 0; i < S->n; ++i) S->th[i] = std::make_unique<Th>();
        std::vector<i64> last(size_t(S->n), -1);
        for (u32 i = 0; i < t.ops.size(); ++i) {
            const Op& o = t.ops[i];
            int th = owner(o);
            if (o.code == PREEMPT) {
                if (last[size_t(th)] >= 0)
                    S->pre[size_t(last[size_t(th)])].push_back(thr::Preempt{u32(std::max<i64>(1, o.a[1])), int(u64(o.a[2]) % u64(S->n)), u32(o.a[3]), u32(o.a[4])});
                continue;
            }
            S->th[th]->ops.push_back(i);
            if (o.code != OOM) last[size_t(th)] = i;
        }
        fresh(sm::global_arena_metrics);
        thr::begin(S->n, t.seed);
        thr::run(&body);
        g_slot->step.store(t.ops.size());
        ev(thr::sched_hash());
        ev(thr::points());
        count("sched.points", thr::points());
        count("sched.preemptions", thr::switches());
        count("sched.threads", u64(S->n));
        if (S->max_par_reports > 1) count("sched.overlapping_reports");
        note_state(thr::sched_hash());
        if (thr::overlapped() && (t.prop != "C08" || S->max_par_reports > 1)) ::interesting();
        if (!S->greset) check_global();
    }
};
}  // namespace

sim::World* sim::make_world() { return new ThreadWorld(); }
