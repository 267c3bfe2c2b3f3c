// Simulated world of arenas: C01-C07.
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <string>
#include <vector>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include "blockheap.hpp"
#include "core.hpp"

using namespace sim;
using stdb::memory::Arena;
using stdb::memory::ArenaContainStatus;
namespace sm = stdb::memory;

namespace {

enum OpCode {
    NEW, ALLOC, ALLOCC, CREATE, ARRAY, OWN, CONT_NEW, CONT_OP, CONT_DEL, RAWPMR, COBJ, COBJ_GROW, RESET, DESTROY, MOVE,
    ZOMBIE_DEL, CHECKS, REFILL, BLKFAIL, OUTAGE, CAP, HEAL, WRITE, CLOCK, WALLJUMP, REPORT, LRESET, GSTRING, HUGE_REQ,
    VERIFY, HEAPOUT, BULK
};
const std::vector<OpDesc> kOps = {
  {"new_arena", 5},  {"allocate", 3},      {"allocate_cleanup", 3}, {"create", 3},          {"create_array", 3},
  {"own", 1},        {"pmr_container", 2}, {"pmr_op", 3},           {"pmr_destroy", 1},     {"pmr_raw", 3},
  {"create_pmr", 3}, {"grow_pmr", 3},      {"reset", 1},            {"destroy", 1},         {"move", 2},
  {"destroy_moved", 1}, {"check_query", 2}, {"reset_and_refill", 1}, {"fault_block_kth", 2}, {"fault_outage", 1},
  {"fault_capacity", 1}, {"faults_stop", 0}, {"write", 2},          {"clock_advance", 2},   {"wall_clock_jump", 1},
  {"report", 2},     {"local_reset", 0},   {"render", 0},           {"impossible", 3},      {"verify", 0},
  {"fault_heap_outage", 1}, {"bulk", 4},
};

constexpr int kSlots = 4;
constexpr u64 kHdr = sm::kBlockHeaderSize;
constexpr u64 kNode = sm::kCleanupNodeSize;

struct Ext
{
    u64 addr, size;    // whole extent
    u64 paddr, psize;  // pattern area
    u64 seed;
};
struct Tok
{
    int id;
    const void* elem;
    int fn;
    u64 mem, memlen, seed;  // arena memory that must still be valid (pattern checked) when the cleanup runs
};
struct MB
{
    u64 addr, size, end, cleanups;
};
struct Req
{
    int kind;
    u64 size, align;
};
struct HookEv
{
    char type;
    const void* arena;
    const void* cookie;
    u64 x, y;
    const std::type_info* ti;
};
enum Phase { kIdle, kOp, kResetting, kDestroying };
struct MA
{
    int id = 0;
    Arena* a = nullptr;
    std::unique_ptr<char[]> storage;
    Arena::Options opt{};
    int mask = 0;
    int pair = 0;
    bool metrics = false;
    void* cookie = nullptr;
    std::string loc;
    u64 birth = 0;
    std::vector<MB> mbs;
    std::vector<Ext> exts;
    std::vector<Tok> toks;
    bool fuzzy = false;
    bool logreq = true;
    std::vector<Req> reqs;
    Phase phase = kIdle;
    u64 space() const {
        u64 s = 0;
        for (auto& b : mbs) s += b.size;
        return s;
    }
    static u64 freeof(const MB& b) { return b.size - b.cleanups * kNode - b.end; }
    u64 waste() const {
        u64 s = 0;
        for (auto& b : mbs) s += freeof(b);
        return s;
    }
    bool logs = true;
    // null when there is no memory for the resource object itself
    Arena::memory_resource* res() const {
        CUT c;
        return a->get_memory_resource();
    }
};
struct Zombie
{
    Arena* a;
    std::unique_ptr<char[]> storage;
};

// pmr containers living outside the arena object, on its resource
struct alignas(32) Wide
{
    u64 v[4];
    bool operator==(const Wide& o) const { return v[0] == o.v[0] && v[3] == o.v[3]; }
};
struct alignas(16) Mid
{
    u64 v[2];
    bool operator==(const Mid& o) const { return v[0] == o.v[0] && v[1] == o.v[1]; }
};
struct Cont
{
    int type;
    MA* owner;
    std::pmr::vector<u64>* v0 = nullptr;
    std::vector<u64> m0;
    std::pmr::vector<Wide>* v1 = nullptr;
    std::vector<Wide> m1;
    std::pmr::string* v2 = nullptr;
    std::string m2;
    std::pmr::map<int, std::pmr::string>* v3 = nullptr;
    std::map<int, std::string> m3;
    std::pmr::list<Mid>* v4 = nullptr;
    std::list<Mid> m4;
    std::pmr::vector<std::pmr::string>* v5 = nullptr;
    std::vector<std::string> m5;
};

struct Metrics
{
    u64 init = 0, destruct = 0, alloc = 0, newblock = 0, reset = 0, allocated = 0, resettled = 0, used = 0, wasted = 0;
    u64 ah[8] = {0}, lh[8] = {0};
    std::map<std::string, u64> loc;
    void add(const Metrics& o) {
        init += o.init;
        destruct += o.destruct;
        alloc += o.alloc;
        newblock += o.newblock;
        reset += o.reset;
        allocated += o.allocated;
        resettled += o.resettled;
        used += o.used;
        wasted += o.wasted;
        for (int i = 0; i < 8; ++i) {
            ah[i] += o.ah[i];
            lh[i] += o.lh[i];
        }
        for (auto& [k, v] : o.loc) loc[k] += v;
    }
    void alloc_size(u64 n) {
        static const u64 b[8] = {64, 128, 256, 512, 1024, 2048, 4096, 1 << 20};
        for (int i = 0; i < 8; ++i)
            if (n <= b[i]) {
                ++ah[i];
                return;
            }
    }
    void lifetime(u64 ms) {
        static const u64 b[8] = {1, 5, 10, 50, 100, 200, 500, 1000};
        for (int i = 0; i < 8; ++i)
            if (ms <= b[i]) {
                ++lh[i];
                return;
            }
    }
};

struct ObjRec
{
    u64 addr;
    int state;  // 1 constructed 2 destroyed
    int arena;
};

struct State
{
    u64 seed = 0;
    std::unique_ptr<MA> slot[kSlots];
    std::vector<Zombie> zombies;
    std::vector<std::unique_ptr<Cont>> conts;
    MA* cur = nullptr;
    std::vector<HookEv> hooks;       // hook calls of the current operation
    std::vector<HookEv> expect;      // expected 'a' events (successful allocations, in order)
    std::vector<MB> obtained;        // blocks obtained during the operation
    u64 op_failures0 = 0, op_heap0 = 0;
    std::map<int, ObjRec> objs;
    int next_tok = 1, next_arena = 1;
    bool use_metrics = false;
    Metrics local, global;
    u64 logger_calls = 0;
    u64 owned_alive = 0;
    std::vector<void*> cobjs;  // live ContObj
    u64 nops = 0;
};
State* S = nullptr;
char g_cookies[1024];
int g_ncookie = 0;

u8 pat(u64 seed, u64 i) { return u8(mix64(seed + (i >> 3)) >> ((i & 7) * 8)); }
void fill_pat(u64 addr, u64 n, u64 seed) {
    u8* p = reinterpret_cast<u8*>(addr);
    for (u64 i = 0; i < n; ++i) p[i] = pat(seed, i);
}
i64 bad_pat(u64 addr, u64 n, u64 seed) {
    const u8* p = reinterpret_cast<const u8*>(addr);
    u64 i = 0;
    for (; i + 8 <= n; i += 8) {
        u64 w = mix64(seed + (i >> 3)), r;
        memcpy(&r, p + i, 8);
        if (r != w) return i64(i);
    }
    for (; i < n; ++i)
        if (p[i] != pat(seed, i)) return i64(i);
    return -1;
}
MA* by_id(int id) {
    for (auto& m : S->slot)
        if (m && m->id == id) return m.get();
    return nullptr;
}
u64 a8(u64 n) { return (n + 7) / 8 * 8; }

// ------------------------------------------------------------------ seams
template <int K>
void* blk_alloc(std::size_t n) {
    Harness h;
    blk::set_owner(S->cur ? S->cur->id : -1);
    void* p = blk::alloc(n, K);
    if (p && S->cur) {
        if (S->cur->pair != K) SIM_CHECK("C04", false, "C04:wrong-pair", "block obtained through another arena's block_alloc");
        MB b{reinterpret_cast<u64>(p), n, kHdr, 0};
        S->cur->mbs.push_back(b);
        S->obtained.push_back(b);
    }
    return p;
}
template <int K>
void blk_dealloc(void* p) {
    Harness h;
    const char* err = nullptr;
    MA* m = S->cur;
    auto* b = blk::find(reinterpret_cast<u64>(p));
    // metadata of the arena's own bookkeeping
    if (b && m && b->owner != m->id && b->addr == reinterpret_cast<u64>(p))
        SIM_CHECK("C04", false, "C04:foreign-block", "arena gave back a block that belongs to another arena");
    if (m && b && b->addr == reinterpret_cast<u64>(p)) {
        // cleanups that may refer to arena memory must have run before any block of the arena is given back
        if (!m->toks.empty()) {
            for (auto& t : m->toks)
                if (t.mem >= b->addr && t.mem < b->addr + b->size)
                    SIM_CHECK("C03", false, "C03:memory-released-early",
                              "a block was given back before the cleanup of an object in it (token %d) ran", t.id);
        }
        bool oldest = !m->mbs.empty() && m->mbs.front().addr == b->addr;
        if (m->phase == kResetting)
            SIM_CHECK("C04", !oldest, "C04:oldest-freed", "Reset gave back the oldest block");
        SIM_CHECK("C04", m->phase == kResetting || m->phase == kDestroying, "C04:early-free",
                  "block given back outside of Reset and destruction");
    }
    Ext gone{};
    auto* r = blk::release(p, K, &err);
    if (!r) {
        SIM_CHECK("C04", false, "C04:bad-free", "block_dealloc: %s", err);
        return;
    }
    (void)gone;
    if (m) {
        for (std::size_t i = 0; i < m->mbs.size(); ++i)
            if (m->mbs[i].addr == r->addr) {
                m->mbs.erase(m->mbs.begin() + long(i));
                break;
            }
    }
}
void logger(const std::string&) {
    Harness h;
    ++S->logger_calls;
    count("logger.called");
}

void rec_hook(HookEv e) {
    Harness h;
    S->hooks.push_back(e);
}
void* h_init(Arena* a, const boost::source_location& loc) {
    void* c = nullptr;
    if (S->use_metrics) {
        c = sm::metrics_probe_on_arena_init(a, loc);
    } else {
        c = &g_cookies[(g_ncookie++) % 1024];
    }
    Harness h;
    if (S->cur) {
        S->cur->cookie = c;
        S->cur->loc = std::string(loc.file_name()) + ":" + std::to_string(loc.line());
    }
    rec_hook({'i', a, c, 0, 0, nullptr});
    return c;
}
void h_reset(Arena* a, void* c, u64 used, u64 wasted) { rec_hook({'r', a, c, used, wasted, nullptr}); }
void h_alloc(const std::type_info* t, u64 n, void* c) { rec_hook({'a', nullptr, c, n, 0, t}); }
void h_newblock(u64 num, u64 size, void* c) { rec_hook({'b', nullptr, c, num, size, nullptr}); }
void* h_destroy(Arena* a, void* c, u64 used, u64 wasted) {
    rec_hook({'d', a, c, used, wasted, nullptr});
    return nullptr;
}

// ------------------------------------------------------------------ extents
void add_ext(MA& m, u64 addr, u64 size, u64 align, u64 paddr, u64 psize, u64 seed, const char* what, bool fill) {
    SIM_CHECK("C01,C06", addr % align == 0, "C01:misaligned", "%s of %llu bytes is not aligned to %llu (address %% 64 = %llu)", what,
              (unsigned long long)size, (unsigned long long)align, (unsigned long long)(addr % 64));
    if (size == 0) {  // no extent: any aligned pointer will do, but padding may have been spent on it
        if (!m.mbs.empty()) {
            MB& b = m.mbs.back();
            if (addr >= b.addr + b.end && addr <= b.addr + b.size - b.cleanups * kNode) b.end = addr - b.addr;
        }
        return;
    }
    MB* in = nullptr;
    for (auto& b : m.mbs)
        if (addr >= b.addr && addr <= b.addr + b.size) {
            // the extent may start exactly behind a block only when empty
            if (addr + size <= b.addr + b.size && (size > 0 || addr < b.addr + b.size || in == nullptr)) in = &b;
        }
    SIM_CHECK("C01,C02", in != nullptr && addr + size >= addr, "C01:outside-block",
              "%s of %llu bytes does not lie inside any block the arena owns", what, (unsigned long long)size);
    if (in) {
        SIM_CHECK("C01", addr >= in->addr + kHdr, "C01:in-header", "%s overlaps the block header", what);
        SIM_CHECK("C01", addr + size <= in->addr + in->size - in->cleanups * kNode, "C01:in-cleanups",
                  "%s of %llu bytes overlaps cleanup records", what, (unsigned long long)size);
        u64 e = addr + a8(size) - in->addr;
        if (e > in->end) in->end = e;
        if (in->end > in->size - in->cleanups * kNode) in->end = in->size - in->cleanups * kNode;
    }
    for (auto& mm : S->slot) {
        if (!mm) continue;
        for (auto& x : mm->exts)
            if (size && x.size && x.addr < addr + size && addr < x.addr + x.size)
                SIM_CHECK("C01", false, "C01:overlap", "%s of %llu bytes overlaps a live allocation of %llu bytes", what,
                          (unsigned long long)size, (unsigned long long)x.size);
    }
    if (fill && psize && blk::live_range(paddr, psize)) fill_pat(paddr, psize, seed);
    if (size && !blk::live_range(addr, size)) return;  // (another property's violation)
    m.exts.push_back(Ext{addr, size, paddr, psize, seed});
}
void drop_ext(MA& m, u64 addr) {
    for (std::size_t i = m.exts.size(); i-- > 0;)
        if (m.exts[i].addr == addr) {
            m.exts.erase(m.exts.begin() + long(i));
            return;
        }
}
void verify_exts(MA& m, const char* props) {
    for (auto& x : m.exts) {
        if (!x.psize) continue;
        SIM_CHECK(props, blk::live_range(x.addr, x.size), "C01:released", "a live allocation lies in memory that was given back");
        if (!blk::live_range(x.addr, x.size)) continue;
        i64 b = bad_pat(x.paddr, x.psize, x.seed);
        if (b >= 0) {
            SIM_CHECK(props, false, "C01:content", "byte %lld of a live allocation of %llu bytes changed", (long long)b,
                      (unsigned long long)x.size);
            fill_pat(x.paddr, x.psize, x.seed);  // resynchronise when another property is checked
        }
    }
}

// ------------------------------------------------------------------ cleanups and tracked objects
void on_cleanup(int fn, const void* p, int tok_hint) {
    Harness h;
    MA* m = S->cur;
    count("cleanup.run");
    if (!m || (m->phase != kResetting && m->phase != kDestroying)) {
        SIM_CHECK("C03", false, "C03:unexpected", "a cleanup ran outside of Reset and destruction (token %d)", tok_hint);
        return;
    }
    std::size_t pos = m->toks.size();
    for (std::size_t i = m->toks.size(); i-- > 0;)
        if (m->toks[i].elem == p && m->toks[i].fn == fn && (tok_hint < 0 || m->toks[i].id == tok_hint)) {
            pos = i;
            break;
        }
    if (pos == m->toks.size()) {
        SIM_CHECK("C03", false, "C03:not-registered", "a cleanup ran that is not registered or already ran (token %d, kind %d)",
                  tok_hint, fn);
        return;
    }
    SIM_CHECK("C03", pos + 1 == m->toks.size(), "C03:order", "cleanup of token %d ran before the newer token %d", m->toks[pos].id,
              m->toks.back().id);
    Tok t = m->toks[pos];
    ev(0xC1EA0000 + u64(t.fn));
    if (t.memlen) {
        SIM_CHECK("C03", blk::live_range(t.mem, t.memlen), "C03:memory-released-early",
                  "the memory of token %d was given back before its cleanup ran", t.id);
        if (blk::live_range(t.mem, t.memlen)) {
            i64 b = bad_pat(t.mem, t.memlen, t.seed);
            SIM_CHECK("C03,C01", b < 0, "C03:content", "memory of token %d changed before its cleanup ran (byte %lld)", t.id,
                      (long long)b);
        }
    }
    // every other live allocation must still be there (cleanups may refer to it)
    for (auto& x : m->exts)
        SIM_CHECK("C03", blk::live_range(x.addr, x.size), "C03:memory-released-early",
                  "arena memory was given back before the cleanup of token %d ran", t.id);
    m->toks.erase(m->toks.begin() + long(pos));
}
template <int F>
void cleanup_fn(void* p) {
    on_cleanup(F, p, -1);
}
using CleanupFn = void (*)(void*);
const CleanupFn kCleanupFns[3] = {&cleanup_fn<1>, &cleanup_fn<2>, &cleanup_fn<3>};

constexpr int kObjFn = 10;
constexpr int kOwnFn = 11;
constexpr int kSkipFn = 12;

void obj_constructed(const void* p, u64 size, u64 align, int tok, u64 poff, u64 psize) {
    Harness h;
    MA& m = *S->cur;
    u64 addr = reinterpret_cast<u64>(p);
    S->objs[tok] = ObjRec{addr, 1, m.id};
    add_ext(m, addr, size, align, addr + poff, psize, mix2(u64(tok), 77), "object", true);
}
void obj_destroyed(const void* p, int tok, int fn) {
    Harness h;
    auto it = S->objs.find(tok);
    if (it == S->objs.end() || it->second.addr != reinterpret_cast<u64>(p)) {
        SIM_CHECK("C03", false, "C03:not-an-object", "a destructor ran on something that is not a live object");
        return;
    }
    SIM_CHECK("C02,C03", it->second.state == 1, "C03:twice", "object of token %d was destroyed twice", tok);
    it->second.state = 2;
    if (fn == kSkipFn) {
        MA* m = S->cur;
        bool creating = m && m->phase == kOp;
        SIM_CHECK("C03", creating, "C03:skippable-destroyed", "the arena destroyed an object whose type must be skipped");
        return;
    }
    MA* m = S->cur;
    if (m && m->phase == kOp) return;  // undo of a failed creation; judged by the caller
    on_cleanup(fn, p, tok);
}

struct NestSpec
{
    int kind;
    int depth;
    u64 seed;
};
void nested_ops(Arena& a, const NestSpec& s);

template <int N, int AL>
struct alignas(AL) Obj
{
    ArenaFullManagedTag;
    int tok;
    u8 data[N];
    explicit Obj(int t) : tok(t) { obj_constructed(this, sizeof(Obj), alignof(Obj), t, offsetof(Obj, data), N); }
    ~Obj() { obj_destroyed(this, tok, kObjFn); }
};
template <int N>
struct SkipObj
{
    ArenaManagedCreateOnlyTag;
    int tok;
    u8 data[N];
    explicit SkipObj(int t) : tok(t) { obj_constructed(this, sizeof(SkipObj), alignof(SkipObj), t, offsetof(SkipObj, data), N); }
    ~SkipObj() { obj_destroyed(this, tok, kSkipFn); }
};
struct Nest  // allocates and creates in the same arena from its constructor
{
    ArenaFullManagedTag;
    int tok;
    u8 data[20];
    Nest(Arena& a, int t, const NestSpec& s) : tok(t) {
        obj_constructed(this, sizeof(Nest), alignof(Nest), t, offsetof(Nest, data), sizeof data);
        nested_ops(a, s);
    }
    ~Nest() { obj_destroyed(this, tok, kObjFn); }
};
std::pmr::memory_resource* need_resource(Arena& a) {
    auto* r = a.get_memory_resource();
    if (r == nullptr) throw std::bad_alloc();
    return r;
}
struct ContObj  // lives in the arena and owns further arena memory, possibly in a newer block
{
    ArenaFullManagedTag;
    int tok;
    std::pmr::vector<std::pmr::string> v;
    std::vector<std::string>* model;  // harness memory
    ContObj(Arena& a, int t) : tok(t), v(need_resource(a)) {
        obj_constructed(this, sizeof(ContObj), alignof(ContObj), t, 0, 0);
        Harness h;
        model = new std::vector<std::string>();
    }
    void verify(const char* props) const {
        Harness h;
        SIM_CHECK(props, v.size() == model->size(), "C03:container-content", "container in the arena has %zu elements instead of %zu",
                  v.size(), model->size());
        if (v.empty()) return;
        SIM_CHECK(props, blk::live_range(reinterpret_cast<u64>(v.data()), v.size() * sizeof(v[0])), "C03:memory-released-early",
                  "memory of a container in the arena was given back before its cleanup ran");
        for (std::size_t i = 0; i < v.size(); ++i) {
            bool inl = reinterpret_cast<u64>(v[i].data()) >= reinterpret_cast<u64>(&v[i]) &&
                       reinterpret_cast<u64>(v[i].data()) < reinterpret_cast<u64>(&v[i] + 1);
            SIM_CHECK(props, inl || blk::live_range(reinterpret_cast<u64>(v[i].data()), v[i].size()), "C03:memory-released-early",
                      "memory of a string in the arena was given back before its cleanup ran");
            SIM_CHECK(props, std::string_view(v[i]) == (*model)[i], "C03:container-content",
                      "string %zu of a container in the arena changed", i);
        }
    }
    ~ContObj() {
        Harness h;
        verify("C03,C06");
        obj_destroyed(this, tok, kObjFn);
        for (std::size_t i = 0; i < S->cobjs.size(); ++i)
            if (S->cobjs[i] == this) {
                S->cobjs.erase(S->cobjs.begin() + long(i));
                break;
            }
        delete model;
    }
};
std::string mkstr(u64 seed, u64 n) {
    std::string s(n, ' ');
    for (u64 i = 0; i < n; ++i) s[i] = char('a' + pat(seed, i) % 26);
    return s;
}
struct StrObj  // its constructor takes more memory from the arena, it throws when there is none
{
    ArenaFullManagedTag;
    int tok;
    u64 spec;
    std::pmr::string a;
    sm::arena_string b;
    static std::string text(u64 spec, int k) { return mkstr(spec + u64(k), mix2(spec, u64(k)) % (spec % 3 == 0 ? 900 : 90)); }
    StrObj(Arena& r, int t, u64 sp, const std::string& x, const std::string& y)
        : tok(t), spec(sp), a(x, need_resource(r)), b(y.data(), y.size(), need_resource(r)) {
        obj_constructed(this, sizeof(StrObj), alignof(StrObj), t, 0, 0);
    }
    ~StrObj() {
        Harness h;
        bool far = reinterpret_cast<u64>(a.data()) < reinterpret_cast<u64>(this) || reinterpret_cast<u64>(a.data()) >= reinterpret_cast<u64>(this + 1);
        bool alive = !far || blk::live_range(reinterpret_cast<u64>(a.data()), a.size());
        SIM_CHECK("C03,C06", alive, "C03:memory-released-early", "memory of a string in the arena was given back before its owner was destroyed");
        if (alive)
            SIM_CHECK("C03,C06", std::string_view(a) == text(spec, 1) && std::string_view(b) == text(spec, 2), "C03:container-content",
                      "the strings of an object in the arena changed");
        obj_destroyed(this, tok, kObjFn);
    }
};
// elements of arrays: every constructor call is recorded
std::vector<u64> g_built;
void elem_built(const void* p) {
    Harness h;
    g_built.push_back(reinterpret_cast<u64>(p));
}
struct ElCnt
{
    ArenaManagedCreateOnlyTag;
    u64 self;
    u8 pad[12];
    ElCnt() : self(reinterpret_cast<u64>(this)) { elem_built(this); }
    bool ok(Arena*) const { return self == reinterpret_cast<u64>(this); }
};
struct ElArena
{
    ArenaManagedCreateOnlyTag;
    Arena* owner;
    explicit ElArena(Arena& a) : owner(&a) { elem_built(this); }
    bool ok(Arena* a) const { return owner == a; }
};
struct ElPmr  // takes memory of the arena, and throws when there is none
{
    u64* p;
    explicit ElPmr(std::pmr::polymorphic_allocator<ElPmr> al) : p(static_cast<u64*>(al.resource()->allocate(40, 8))) {
        elem_built(this);
        *p = reinterpret_cast<u64>(this);
    }
    bool ok(Arena*) const { return *p == reinterpret_cast<u64>(this); }
};
struct OwnObj
{
    int tok;
    u8 data[24];
    explicit OwnObj(int t) : tok(t) { ++S->owned_alive; }
    ~OwnObj() {
        Harness h;
        if (S->objs.count(tok) && S->objs[tok].state == 2) SIM_CHECK("C03", false, "C03:twice", "owned object destroyed twice");
        S->objs[tok].state = 2;
        --S->owned_alive;
        if (S->cur && (S->cur->phase == kResetting || S->cur->phase == kDestroying)) on_cleanup(kOwnFn, this, tok);
    }
};
struct Pod24
{
    u64 a, b, c;
};
struct alignas(16) Pod16A
{
    u64 a, b;
};
struct alignas(32) Pod32A
{
    u64 a, b, c, d;
};
struct Pod5
{
    u8 x[5];
};

// ------------------------------------------------------------------ one operation on one arena
struct OpScope
{
    MA& m;
    Phase saved;
    MA* prev;
    bool outer;
    explicit OpScope(MA& mm, Phase p = kOp) : m(mm), saved(mm.phase), prev(S->cur), outer(S->cur == nullptr) {
        S->cur = &m;
        m.phase = p;
        if (outer) {
            S->hooks.clear();
            S->expect.clear();
            S->obtained.clear();
            S->op_failures0 = blk::failures();
            S->op_heap0 = heap::fired();
        }
    }
    ~OpScope() {
        m.phase = saved;
        S->cur = prev;
    }
};
bool op_block_failed() { return blk::failures() != S->op_failures0 || heap::fired() != S->op_heap0; }

void log_req(MA& m, int kind, u64 size, u64 align) {
    if (!m.logreq) return;
    if (m.mbs.size() != 1) {
        m.logreq = false;
        return;
    }
    m.reqs.push_back(Req{kind, size, align});
}

// after a failed operation the newest block may have lost the space of the undone part
void sync_after_failure(MA& m, u64 max_loss) {
    m.logreq = false;
    if (m.mbs.empty()) return;
    MB& b = m.mbs.back();
    u64 f = MA::freeof(b), r = m.a->SpaceRemains();
    if (r <= f && f - r <= max_loss) b.end += f - r;
}

void expect_alloc(MA& m, const std::type_info* ti, u64 n) {
    S->expect.push_back({'a', nullptr, m.cookie, n, 0, ti});
    if (m.metrics) {
        ++S->local.alloc;
        S->local.allocated += n;
        S->local.alloc_size(n);
        S->local.loc[m.loc] += n;
    }
}
// checks common to the end of every (outer) allocation operation
void finish_alloc(MA& m, const char* what, bool got, bool may_fail, u64 fit_need, u64 remains_before, bool had_block, u64 max_loss,
                  std::size_t toks_expected) {
    (void)toks_expected;
    if (!got) {
        SIM_CHECK("C02", may_fail || op_block_failed(), "C02:spurious-null", "%s failed although the block allocator did not", what);
        count("outcome.alloc_failed");
        interesting();
        sync_after_failure(m, max_loss);
    } else {
        count("outcome.alloc_ok");
        if (blk::failures() > 0) count("progress.alloc_ok_after_fault");
    }
    if (had_block && fit_need <= remains_before && !m.fuzzy)
        SIM_CHECK("C04", S->obtained.empty(), "C04:needless-block",
                  "%s needed at most %llu bytes, SpaceRemains was %llu, but a new block was obtained", what,
                  (unsigned long long)fit_need, (unsigned long long)remains_before);
    ev(got ? 0x600D : 0xBAD);
}
void check_hooks(MA& m, const char* what) {
    // new-block hook: once per obtained block
    if (m.metrics) return;
    std::vector<HookEv> a, b;
    for (auto& e : S->hooks) {
        SIM_CHECK("C05", e.cookie == m.cookie || e.type == 'i', "C05:cookie", "%s: hook '%c' got a cookie that is not the one its init hook returned",
                  what, e.type);
        if (e.type == 'a') a.push_back(e);
        if (e.type == 'b') b.push_back(e);
        SIM_CHECK("C05", e.type == 'a' || e.type == 'b', "C05:unexpected-hook", "%s: unexpected hook '%c'", what, e.type);
    }
    if (m.mask & 8) {
        SIM_CHECK("C05", b.size() == S->obtained.size(), "C05:newblock-count", "%s: %zu new-block hooks for %zu obtained blocks", what,
                  b.size(), S->obtained.size());
        u64 idx = m.mbs.size() - S->obtained.size();
        for (std::size_t i = 0; i < b.size() && i < S->obtained.size(); ++i, ++idx)
            SIM_CHECK("C05", b[i].x == idx && b[i].y == S->obtained[i].size, "C05:newblock-args",
                      "%s: new-block hook got index %llu size %llu instead of %llu, %llu", what, (unsigned long long)b[i].x,
                      (unsigned long long)b[i].y, (unsigned long long)idx, (unsigned long long)S->obtained[i].size);
    } else {
        SIM_CHECK("C05", b.empty(), "C05:newblock-count", "%s: new-block hook ran but was not installed", what);
    }
    if (m.mask & 4) {
        SIM_CHECK("C05", a.size() == S->expect.size(), "C05:alloc-count", "%s: %zu allocation hooks for %zu successful allocations", what,
                  a.size(), S->expect.size());
        for (std::size_t i = 0; i < a.size() && i < S->expect.size(); ++i) {
            bool same_type = (a[i].ti == nullptr) == (S->expect[i].ti == nullptr) && (!a[i].ti || *a[i].ti == *S->expect[i].ti);
            SIM_CHECK("C05", a[i].x == S->expect[i].x && same_type, "C05:alloc-args",
                      "%s: allocation hook got size %llu (type %s) instead of %llu (type %s)", what, (unsigned long long)a[i].x,
                      a[i].ti ? a[i].ti->name() : "none", (unsigned long long)S->expect[i].x,
                      S->expect[i].ti ? S->expect[i].ti->name() : "none");
        }
    }
}
void metrics_blocks(MA& m) {
    if (m.metrics) S->local.newblock += S->obtained.size();
}

void check_accounting(MA& m) {
    SIM_CHECK("C02,C04", m.a->SpaceAllocated() == m.space(), "C04:space-allocated", "SpaceAllocated() is %llu, the owned blocks sum up to %llu",
              (unsigned long long)m.a->SpaceAllocated(), (unsigned long long)m.space());
    u64 rem = m.a->SpaceRemains();
    if (!m.fuzzy) {
        u64 f = m.mbs.empty() ? 0 : MA::freeof(m.mbs.back());
        SIM_CHECK("C04", rem == f, "C04:space-remains", "SpaceRemains() is %llu, the newest block has %llu free bytes",
                  (unsigned long long)rem, (unsigned long long)f);
        if (rem != f && !m.mbs.empty()) sync_after_failure(m, ~0ULL);
    } else if (!m.mbs.empty()) {
        MB& b = m.mbs.back();
        if (rem <= b.size - b.cleanups * kNode - kHdr) b.end = b.size - b.cleanups * kNode - rem;
    }
    SIM_CHECK("C02,C03", m.a->cleanups() == m.toks.size(), "C03:cleanup-count", "%llu cleanups are registered, expected %zu",
              (unsigned long long)m.a->cleanups(), m.toks.size());
}

void do_alloc(MA& m, u64 size, u64 align, bool impossible = false) {
    OpScope sc(m);
    u64 before = m.a->SpaceRemains();
    bool had = !m.mbs.empty();
    char* p = nullptr;
    {
        CUT c;
        p = m.a->AllocateAligned(size, align);
    }
    u64 need = size > (1ULL << 62) ? ~0ULL : a8(size) + align - 8;
    if (p) {
        SIM_CHECK("C02", !impossible, "C02:impossible-succeeded", "AllocateAligned(%llu) returned memory", (unsigned long long)size);
        int id = S->next_tok++;
        add_ext(m, reinterpret_cast<u64>(p), size, align, reinterpret_cast<u64>(p), size, mix2(u64(id), 5), "allocation", true);
        expect_alloc(m, nullptr, size);
        if (sc.outer) log_req(m, 0, size, align);
    }
    if (sc.outer) {
        finish_alloc(m, "AllocateAligned", p != nullptr, impossible, need, before, had, a8(size) + align, m.toks.size());
        metrics_blocks(m);
        check_hooks(m, "AllocateAligned");
    } else if (!p) {
        SIM_CHECK("C02", impossible || op_block_failed(), "C02:spurious-null", "nested AllocateAligned failed although the block allocator did not");
        sync_after_failure(m, a8(size) + align);
    }
}
void do_alloc_cleanup(MA& m, u64 size, int fn, int with_elem, bool impossible = false) {
    OpScope sc(m);
    u64 before = m.a->SpaceRemains();
    bool had = !m.mbs.empty();
    static char elems[64];
    int id = S->next_tok++;
    void* elem = with_elem ? &elems[u64(id) % 64] : nullptr;
    char* p = nullptr;
    {
        CUT c;
        p = elem ? m.a->AllocateAlignedAndAddCleanup(size, kCleanupFns[fn % 3], elem)
                 : m.a->AllocateAlignedAndAddCleanup(size, kCleanupFns[fn % 3]);
    }
    if (p) {
        SIM_CHECK("C02", !impossible, "C02:impossible-succeeded", "AllocateAlignedAndAddCleanup(%llu) returned memory",
                  (unsigned long long)size);
        if (!m.mbs.empty()) ++m.mbs.back().cleanups;
        add_ext(m, reinterpret_cast<u64>(p), size, 8, reinterpret_cast<u64>(p), size, mix2(u64(id), 6), "allocation with cleanup", true);
        m.toks.push_back(Tok{id, elem ? elem : p, 1 + fn % 3, reinterpret_cast<u64>(p), size, mix2(u64(id), 6)});
        expect_alloc(m, nullptr, size);
        if (sc.outer) log_req(m, 1, size, 8);
    }
    if (sc.outer) {
        finish_alloc(m, "AllocateAlignedAndAddCleanup", p != nullptr, impossible, size > (1ULL << 62) ? ~0ULL : a8(size) + kNode, before, had,
                     a8(size) + 8, m.toks.size());
        metrics_blocks(m);
        check_hooks(m, "AllocateAlignedAndAddCleanup");
    } else if (!p) {
        sync_after_failure(m, a8(size) + 8);
    }
}
template <typename T, typename... A>
T* do_create_t(MA& m, int tok, bool registers, A&&... args) {
    OpScope sc(m);
    u64 before = m.a->SpaceRemains();
    bool had = !m.mbs.empty();
    T* p = nullptr;
    std::size_t exts0 = m.exts.size();
    (void)exts0;
    {
        CUT c;
        p = m.a->template Create<T>(std::forward<A>(args)...);
    }
    auto it = S->objs.find(tok);
    bool constructed = it != S->objs.end();
    if (p) {
        if constexpr (std::is_trivially_destructible_v<T>) {
            bool zero = true;
            for (u64 i = 0; i < sizeof(T); ++i) zero = zero && reinterpret_cast<const u8*>(p)[i] == 0;
            SIM_CHECK("C01", zero, "C01:not-constructed", "Create without arguments returned an object that is not value-initialised");
            add_ext(m, reinterpret_cast<u64>(p), sizeof(T), alignof(T) < 8 ? 8 : alignof(T), reinterpret_cast<u64>(p), sizeof(T),
                    mix2(u64(tok), 9), "created object", true);
        } else {
            SIM_CHECK("C01,C02", constructed && it->second.state == 1 && it->second.addr == reinterpret_cast<u64>(p), "C02:half-made",
                      "Create returned an object that was not constructed");
        }
        if (registers) {
            if (!m.mbs.empty()) ++m.mbs.back().cleanups;
            for (auto& x : m.exts)
                for (auto& b : m.mbs)
                    if (x.addr >= b.addr && x.addr < b.addr + b.size)
                        SIM_CHECK("C01", x.addr + x.size <= b.addr + b.size - b.cleanups * kNode, "C01:in-cleanups",
                                  "the cleanup record overlaps a live allocation");
            u64 mem = 0, len = 0, seed = 0;
            for (auto& x : m.exts)
                if (x.addr == reinterpret_cast<u64>(p)) {
                    mem = x.paddr;
                    len = x.psize;
                    seed = x.seed;
                }
            m.toks.push_back(Tok{tok, p, kObjFn, mem, len, seed});
        }
        expect_alloc(m, &typeid(T), sizeof(T));
        if (sc.outer) {
            if (alignof(T) <= 8 && sizeof...(A) < 2)
                log_req(m, registers ? 1 : 0, sizeof(T), 8);
            else
                m.logreq = false;
        }
    } else if (constructed) {
        bool skip = !registers;
        SIM_CHECK("C02", skip || it->second.state == 2, "C02:half-made-kept",
                  "Create reported failure but left a constructed object behind (its destructor never runs)");
        drop_ext(m, it->second.addr);
        if (it->second.state == 2) count("outcome.create_undone");
    }
    if (sc.outer) {
        finish_alloc(m, "Create", p != nullptr, false, sizeof...(A) > 1 ? ~0ULL : a8(sizeof(T)) + alignof(T) + (registers ? kNode : 0), before,
                     had, a8(sizeof(T)) + alignof(T), m.toks.size());
        metrics_blocks(m);
        check_hooks(m, "Create");
    } else if (!p) {
        sync_after_failure(m, a8(sizeof(T)) + alignof(T));
    }
    return p;
}
void do_create(MA& m, int type, u64 spec) {
    int tok = S->next_tok++;
    switch (u64(type) % 13) {
        case 0: (void)do_create_t<Pod24>(m, tok, false); break;
        case 1: (void)do_create_t<Obj<8, 8>>(m, tok, true, tok); break;
        case 2: (void)do_create_t<Obj<40, 8>>(m, tok, true, tok); break;
        case 3: (void)do_create_t<Obj<200, 8>>(m, tok, true, tok); break;
        case 4: (void)do_create_t<Obj<24, 16>>(m, tok, true, tok); break;
        case 5: (void)do_create_t<Obj<24, 32>>(m, tok, true, tok); break;
        case 6: (void)do_create_t<SkipObj<16>>(m, tok, false, tok); break;
        case 7:
        case 8: {
            NestSpec s{int(spec % 7), int(spec / 7 % 3), mix64(spec)};
            m.logreq = false;
            (void)do_create_t<Nest>(m, tok, true, tok, s);
            break;
        }
        case 9: (void)do_create_t<Pod32A>(m, tok, false); break;
        case 11:
        case 12: {
            std::string x = StrObj::text(spec, 1), y = StrObj::text(spec, 2);
            y.reserve(y.size() + 32);  // release builds read whole words of an aligned source
            m.fuzzy = true;
            m.logreq = false;
            bool ok = do_create_t<StrObj>(m, tok, true, tok, spec, x, y) != nullptr;
            if (!ok && !S->objs.count(tok)) count("outcome.create_constructor_failed");
            break;
        }
        default: (void)do_create_t<Obj<900, 8>>(m, tok, true, tok); break;
    }
}
void nested_ops(Arena& a, const NestSpec& s) {
    Harness h;
    (void)a;
    MA& m = *S->cur;
    Phase saved = m.phase;
    int tok = S->next_tok++;
    switch (s.kind) {
        case 0: do_alloc(m, s.seed % 200, 8); break;
        case 1: (void)do_create_t<Obj<40, 8>>(m, tok, true, tok); break;
        case 2:
            (void)do_create_t<Obj<8, 8>>(m, tok, true, tok);
            do_alloc_cleanup(m, s.seed % 100, int(s.seed % 3), 0);
            break;
        case 3:
            if (s.depth > 0) {
                NestSpec n{int(s.seed % 4), s.depth - 1, mix64(s.seed)};
                (void)do_create_t<Nest>(m, tok, true, tok, n);
            }
            break;
        case 4: do_alloc(m, 900, 8); break;
        case 5: (void)do_create_t<Obj<900, 8>>(m, tok, true, tok); break;
        default: break;
    }
    m.phase = saved;
}
template <typename T>
void do_array_t(MA& m, u64 n) {
    OpScope sc(m);
    u64 before = m.a->SpaceRemains();
    bool had = !m.mbs.empty();
    T* p = nullptr;
    bool impossible = n > ~0ULL / sizeof(T) || n * sizeof(T) > ~0ULL - 128;
    constexpr bool more = std::is_same_v<T, ElPmr>;
    g_built.clear();
    if (more) m.fuzzy = true, m.logreq = false;
    {
        CUT c;
        p = m.a->template CreateArray<T>(n);
    }
    u64 size = n * sizeof(T);
    if (p) {
        SIM_CHECK("C02", !impossible, "C02:impossible-succeeded", "CreateArray of %llu elements of %zu bytes returned memory",
                  (unsigned long long)n, sizeof(T));
        if (impossible) return;
        bool built = true;
        if constexpr (requires { p->ok(m.a); }) {
            std::sort(g_built.begin(), g_built.end());
            built = g_built.size() == n;
            for (u64 i = 0; built && i < n; ++i) built = g_built[i] == reinterpret_cast<u64>(p + i) && p[i].ok(m.a);
        } else {
            for (u64 i = 0; built && i < size; ++i) built = reinterpret_cast<const u8*>(p)[i] == 0;
        }
        SIM_CHECK("C01", built, "C01:not-constructed", "CreateArray of %llu elements did not construct every element exactly once", (unsigned long long)n);
        int id = S->next_tok++;
        add_ext(m, reinterpret_cast<u64>(p), size, alignof(T) < 8 ? 8 : alignof(T), reinterpret_cast<u64>(p), size, mix2(u64(id), 8), "array",
                true);
        expect_alloc(m, &typeid(T), size);
        if (alignof(T) <= 8)
            log_req(m, 0, size, 8);
        else
            m.logreq = false;
    }
    finish_alloc(m, "CreateArray", p != nullptr, impossible, impossible ? ~0ULL : a8(size) + alignof(T), before, had, a8(size) + alignof(T), 0);
    metrics_blocks(m);
    check_hooks(m, "CreateArray");
}
void do_array(MA& m, int type, u64 n) {
    switch (u64(type) % 8) {
        case 0: do_array_t<Pod24>(m, n); break;
        case 1: do_array_t<Pod5>(m, n); break;
        case 2: do_array_t<Pod16A>(m, n); break;
        case 3: do_array_t<u64>(m, n); break;
        case 4: do_array_t<Pod32A>(m, n); break;
        case 5: do_array_t<ElCnt>(m, n); break;
        case 6: do_array_t<ElArena>(m, n); break;
        default: do_array_t<ElPmr>(m, n); break;
    }
}
void do_own(MA& m) {
    OpScope sc(m);
    u64 before = m.a->SpaceRemains();
    bool had = !m.mbs.empty();
    int tok = S->next_tok++;
    auto* o = new OwnObj(tok);
    S->objs[tok] = ObjRec{reinterpret_cast<u64>(o), 1, m.id};
    bool ok = false;
    {
        CUT c;
        ok = m.a->Own(o);
    }
    if (ok) {
        if (!m.mbs.empty()) ++m.mbs.back().cleanups;
        m.toks.push_back(Tok{tok, o, kOwnFn, 0, 0, 0});
        m.logreq = false;
    } else {
        SIM_CHECK("C02,C03", S->objs[tok].state == 1, "C03:own-failed-deleted", "Own returned false but deleted the object");
        if (S->objs[tok].state == 1) delete o;
    }
    finish_alloc(m, "Own", ok, false, kNode, before, had, 0, 0);
    metrics_blocks(m);
    check_hooks(m, "Own");
}
void do_rawpmr(MA& m, u64 size, u64 align) {
    OpScope sc(m);
    u64 before = m.a->SpaceRemains();
    bool had = !m.mbs.empty();
    void* p = nullptr;
    bool thrown = false;
    bool impossible = size > ~0ULL - 256;
    std::pmr::memory_resource* r = m.res();
    if (!r) {
        SIM_CHECK("C06", op_block_failed(), "C06:no-resource", "the arena has no memory resource although memory was available");
        return;
    }
    {
        CUT c;
        try {
            p = r->allocate(size, align);
        } catch (const std::bad_alloc&) {
            thrown = true;
        }
    }
    u64 al = align < 8 ? 8 : align;
    if (p) {
        SIM_CHECK("C02,C06", !impossible, "C02:impossible-succeeded", "memory_resource::allocate(%llu) returned memory", (unsigned long long)size);
        if (impossible) return;
        int id = S->next_tok++;
        add_ext(m, reinterpret_cast<u64>(p), size, al, reinterpret_cast<u64>(p), size, mix2(u64(id), 15), "pmr allocation", true);
        log_req(m, 0, size, al);
    } else {
        SIM_CHECK("C06", thrown, "C06:null", "memory_resource::allocate(%llu, %llu) returned null instead of throwing std::bad_alloc",
                  (unsigned long long)size, (unsigned long long)align);
    }
    finish_alloc(m, "memory_resource::allocate", p != nullptr, impossible, impossible ? ~0ULL : a8(size) + al - 8, before, had, a8(size) + al, 0);
    if (p && size && size < 4096 && (size & 1)) {
        CUT c;
        r->deallocate(p, size, align);  // must not give the memory back
    }
    metrics_blocks(m);
    check_hooks(m, "memory_resource::allocate");
}
int do_cobj(MA& m) {
    int tok = S->next_tok++;
    m.logreq = false;
    auto* p = do_create_t<ContObj>(m, tok, true, tok);
    if (p) S->cobjs.push_back(p);
    return p ? 1 : 0;
}

// ------------------------------------------------------------------ containers
template <typename F, typename G>
void pmr_try(MA& m, const char* what, F&& real, G&& model) {
    OpScope sc(m);
    m.fuzzy = true;
    m.logreq = false;
    bool thrown = false;
    {
        CUT c;
        try {
            real();
        } catch (const std::bad_alloc&) {
            thrown = true;
        }
    }
    if (thrown) {
        SIM_CHECK("C06", op_block_failed(), "C06:spurious-bad-alloc", "%s threw std::bad_alloc although the block allocator did not fail", what);
        count("outcome.pmr_bad_alloc");
        interesting();
    } else {
        Harness h;
        model();
        count("outcome.pmr_ok");
    }
    ev(thrown ? 0xBADA : 0x600D);
    metrics_blocks(m);
    check_hooks(m, what);
}
void verify_cont(Cont& c) {
    MA& m = *c.owner;
    auto inside = [&](const void* p, u64 n, u64 al) {
        if (!n) return;
        u64 a = reinterpret_cast<u64>(p);
        SIM_CHECK("C06", a % al == 0, "C06:misaligned", "container storage is not aligned to %llu", (unsigned long long)al);
        bool in = false;
        for (auto& b : m.mbs)
            if (a >= b.addr + kHdr && a + n <= b.addr + b.size - b.cleanups * kNode) in = true;
        SIM_CHECK("C06", in, "C06:outside", "container storage of %llu bytes is not in the arena of its resource", (unsigned long long)n);
        SIM_CHECK("C06", m.a->check(static_cast<const char*>(p)) == ArenaContainStatus::BlockUsed, "C06:check",
                  "check() does not report container storage as used");
        for (auto& x : m.exts)
            SIM_CHECK("C06", !(x.size && x.addr < a + n && a < x.addr + x.size), "C06:overlap", "container storage overlaps a live allocation");
    };
#define SAME(cond, what) SIM_CHECK("C06", cond, "C06:content", "contents of a pmr %s differ from the model", what)
    switch (c.type) {
        case 0:
            inside(c.v0->data(), c.v0->capacity() * sizeof(u64), alignof(u64));
            SAME(std::equal(c.v0->begin(), c.v0->end(), c.m0.begin(), c.m0.end()), "vector");
            break;
        case 1:
            inside(c.v1->data(), c.v1->capacity() * sizeof(Wide), alignof(Wide));
            SAME(std::equal(c.v1->begin(), c.v1->end(), c.m1.begin(), c.m1.end()), "vector of 32-byte aligned elements");
            break;
        case 2:
            if (c.v2->capacity() > 15) inside(c.v2->data(), c.v2->capacity() + 1, 1);
            SAME(std::string_view(*c.v2) == c.m2, "string");
            break;
        case 3: {
            SAME(c.v3->size() == c.m3.size(), "map");
            auto it = c.m3.begin();
            for (auto& [k, v] : *c.v3) {
                inside(&v, sizeof v, alignof(std::pmr::string));
                if (v.capacity() > 15) inside(v.data(), v.capacity() + 1, 1);
                SAME(k == it->first && std::string_view(v) == it->second, "map");
                ++it;
            }
            break;
        }
        case 4:
            for (auto& x : *c.v4) inside(&x, sizeof x, alignof(Mid));
            SAME(std::equal(c.v4->begin(), c.v4->end(), c.m4.begin(), c.m4.end()), "list");
            break;
        default:
            inside(c.v5->data(), c.v5->capacity() * sizeof(std::pmr::string), alignof(std::pmr::string));
            SAME(c.v5->size() == c.m5.size(), "vector of strings");
            for (std::size_t i = 0; i < c.m5.size(); ++i) SAME(std::string_view((*c.v5)[i]) == c.m5[i], "vector of strings");
            break;
    }
#undef SAME
}
void cont_new(MA& m, int type) {
    if (S->conts.size() >= 8) return;
    auto c = std::make_unique<Cont>();
    c->type = int(u64(type) % 6);
    c->owner = &m;
    u64 fired = heap::fired();
    auto* r = m.res();
    if (!r) {
        SIM_CHECK("C06", heap::fired() != fired, "C06:no-resource", "the arena has no memory resource although memory was available");
        count("outcome.no_resource");
        return;
    }
    switch (c->type) {
        case 0: c->v0 = new std::pmr::vector<u64>(r); break;
        case 1: c->v1 = new std::pmr::vector<Wide>(r); break;
        case 2: c->v2 = new std::pmr::string(r); break;
        case 3: c->v3 = new std::pmr::map<int, std::pmr::string>(r); break;
        case 4: c->v4 = new std::pmr::list<Mid>(r); break;
        default: c->v5 = new std::pmr::vector<std::pmr::string>(r); break;
    }
    S->conts.push_back(std::move(c));
}
void cont_free(Cont& c) {
    OpScope sc(*c.owner);
    delete c.v0;
    delete c.v1;
    delete c.v2;
    delete c.v3;
    delete c.v4;
    delete c.v5;
}
void cont_drop(MA* m) {
    for (std::size_t i = 0; i < S->conts.size();) {
        if (S->conts[i]->owner == m) {
            verify_cont(*S->conts[i]);
            cont_free(*S->conts[i]);
            S->conts.erase(S->conts.begin() + long(i));
        } else {
            ++i;
        }
    }
}
void cont_op(Cont& c, u64 kind, u64 arg) {
    MA& m = *c.owner;
    switch (c.type) {
        case 0:
            if (kind % 4 == 0) pmr_try(m, "pmr vector reserve", [&] { c.v0->reserve(arg % 300); }, [] {});
            else if (kind % 4 == 1 && !c.m0.empty()) pmr_try(m, "pmr vector pop_back", [&] { c.v0->pop_back(); }, [&] { c.m0.pop_back(); });
            else if (kind % 4 == 2) pmr_try(m, "pmr vector shrink", [&] { c.v0->shrink_to_fit(); }, [] {});
            else pmr_try(m, "pmr vector push_back", [&] { c.v0->push_back(arg); }, [&] { c.m0.push_back(arg); });
            break;
        case 1: {
            Wide w{{arg, 1, 2, mix64(arg)}};
            if (kind % 4 == 0) pmr_try(m, "pmr vector reserve", [&] { c.v1->reserve(arg % 40); }, [] {});
            else pmr_try(m, "pmr vector push_back", [&] { c.v1->push_back(w); }, [&] { c.m1.push_back(w); });
            break;
        }
        case 2: {
            std::string s = mkstr(arg, arg % 70);
            if (kind % 4 == 0) pmr_try(m, "pmr string assign", [&] { c.v2->assign(s); }, [&] { c.m2.assign(s); });
            else pmr_try(m, "pmr string append", [&] { c.v2->append(s); }, [&] { c.m2.append(s); });
            break;
        }
        case 3: {
            int k = int(arg % 12);
            std::string s = mkstr(arg, arg % 50);
            if (kind % 4 == 0) pmr_try(m, "pmr map erase", [&] { c.v3->erase(k); }, [&] { c.m3.erase(k); });
            else pmr_try(m, "pmr map insert", [&] { c.v3->emplace(k, s.c_str()); }, [&] { c.m3.emplace(k, s); });
            break;
        }
        case 4: {
            Mid x{{arg, mix64(arg)}};
            if (kind % 5 == 0 && !c.m4.empty()) pmr_try(m, "pmr list pop_front", [&] { c.v4->pop_front(); }, [&] { c.m4.pop_front(); });
            else pmr_try(m, "pmr list push_back", [&] { c.v4->push_back(x); }, [&] { c.m4.push_back(x); });
            break;
        }
        default: {
            std::string s = mkstr(arg, arg % 60);
            if (kind % 6 == 0 && !c.m5.empty()) pmr_try(m, "pmr vector pop_back", [&] { c.v5->pop_back(); }, [&] { c.m5.pop_back(); });
            else pmr_try(m, "pmr vector<string> push_back", [&] { c.v5->emplace_back(s.c_str()); }, [&] { c.m5.push_back(s); });
            break;
        }
    }
    verify_cont(c);
}

// ------------------------------------------------------------------ life cycle
void new_arena(int slot, const Op& o) {
    if (S->slot[slot]) return;
    auto m = std::make_unique<MA>();
    m->id = S->next_arena++;
    u64 normal = 64ULL << (u64(o.a[1]) % 8);
    u64 huge = normal << (u64(o.a[2]) % 6);
    u64 sugg = 64ULL << (u64(o.a[3]) % 8);
    m->mask = int(o.a[4] & 31);
    bool moving_ctor = (o.a[4] >> 5) & 1;
    m->pair = int((o.a[4] >> 6) & 1);
    m->metrics = S->use_metrics;
    if (m->metrics) m->mask = 31;
    m->opt.normal_block_size = normal;
    m->opt.huge_block_size = huge;
    m->opt.suggested_init_block_size = sugg;
    m->opt.block_alloc = m->pair ? &blk_alloc<1> : &blk_alloc<0>;
    m->opt.block_dealloc = m->pair ? &blk_dealloc<1> : &blk_dealloc<0>;
    m->logs = !((o.a[4] >> 7) & 1);
    m->opt.logger_func = m->logs ? &logger : nullptr;
    if (m->mask & 1) m->opt.on_arena_init = &h_init;
    if (m->metrics) {
        m->opt.on_arena_reset = &sm::metrics_probe_on_arena_reset;
        m->opt.on_arena_allocation = &sm::metrics_probe_on_arena_allocation;
        m->opt.on_arena_newblock = &sm::metrics_probe_on_arena_newblock;
        m->opt.on_arena_destruction = &sm::metrics_probe_on_arena_destruction;
    } else {
        if (m->mask & 2) m->opt.on_arena_reset = &h_reset;
        if (m->mask & 4) m->opt.on_arena_allocation = &h_alloc;
        if (m->mask & 8) m->opt.on_arena_newblock = &h_newblock;
        if (m->mask & 16) m->opt.on_arena_destruction = &h_destroy;
    }
    m->storage.reset(new char[sizeof(Arena)]);
    m->birth = clk::steady();
    {
        OpScope sc(*m);
        {
            CUT c;
            if (moving_ctor) {
                Arena::Options tmp = m->opt;
                m->a = new (m->storage.get()) Arena(std::move(tmp));
            } else {
                m->a = new (m->storage.get()) Arena(m->opt);
            }
        }
        std::size_t want = (m->mask & 1) ? 1 : 0;
        SIM_CHECK("C05", S->hooks.size() == want && (want == 0 || (S->hooks[0].type == 'i' && S->hooks[0].arena == m->a)), "C05:init",
                  "constructing an arena ran %zu hooks, expected %zu init hook", S->hooks.size(), want);
        if (m->metrics) ++S->local.init;
    }
    S->slot[slot] = std::move(m);
}
void expect_life_hook(MA& m, char type, int bit, u64 space, u64 waste, const char* what) {
    if (m.metrics) return;
    std::size_t n = 0;
    for (auto& e : S->hooks) {
        SIM_CHECK("C05", e.type == type, "C05:unexpected-hook", "%s ran the hook '%c'", what, e.type);
        if (e.type != type) continue;
        ++n;
        SIM_CHECK("C05", e.cookie == m.cookie, "C05:cookie", "%s: hook got a cookie that is not the one its init hook returned", what);
        SIM_CHECK("C05", e.arena == m.a, "C05:arena", "%s: hook got another arena", what);
        SIM_CHECK("C05", e.x == space, "C05:space", "%s: hook got space %llu, expected %llu", what, (unsigned long long)e.x,
                  (unsigned long long)space);
        if (!m.fuzzy)
            SIM_CHECK("C05", e.y == waste, "C05:waste", "%s: hook got unused space %llu, expected %llu", what, (unsigned long long)e.y,
                      (unsigned long long)waste);
    }
    SIM_CHECK("C05", n == ((m.mask & bit) ? 1u : 0u), "C05:life-count", "%s ran its hook %zu times", what, n);
}
void do_reset(MA& m) {
    cont_drop(&m);
    verify_exts(m, "C01,C02,C03");
    u64 space = m.space(), waste = m.waste();
    std::size_t nblocks = m.mbs.size();
    MB head{};
    if (nblocks) head = m.mbs.front();
    u64 ret = 0;
    {
        OpScope sc(m, kResetting);
        CUT c;
        ret = m.a->Reset();
    }
    count("op.reset");
    if (nblocks > 1) count("op.reset_multi_block");
    SIM_CHECK("C03", m.toks.empty(), "C03:missed", "Reset did not run %zu registered cleanup(s)", m.toks.size());
    SIM_CHECK("C04", ret == space, "C04:reset-value", "Reset returned %llu, SpaceAllocated was %llu", (unsigned long long)ret,
              (unsigned long long)space);
    SIM_CHECK("C04,C02", m.mbs.size() == (nblocks ? 1u : 0u), "C04:reset-blocks", "%zu blocks remain after Reset of an arena with %zu blocks",
              m.mbs.size(), nblocks);
    if (nblocks)
        SIM_CHECK("C04", !m.mbs.empty() && m.mbs.front().addr == head.addr, "C04:reset-head", "Reset did not keep the oldest block");
    SIM_CHECK("C04", S->obtained.empty(), "C04:reset-alloc", "Reset obtained a block");
    expect_life_hook(m, 'r', 2, space, waste, "Reset");
    if (m.metrics) {
        ++S->local.reset;
        S->local.resettled += space;
        S->local.wasted += waste;
    }
    m.toks.clear();
    m.exts.clear();
    for (auto& b : m.mbs) {
        b.end = kHdr;
        b.cleanups = 0;
    }
    m.fuzzy = false;
    m.logreq = true;
    ev(0x5E5E + ret);
}
void do_refill(MA& m) {
    std::vector<Req> reqs = m.reqs;
    do_reset(m);
    m.reqs.clear();
    count("op.refill");
    for (auto& r : reqs) {
        OpScope sc(m);
        char* p = nullptr;
        {
            CUT c;
            p = r.kind ? m.a->AllocateAlignedAndAddCleanup(r.size, kCleanupFns[0]) : m.a->AllocateAligned(r.size, r.align);
        }
        SIM_CHECK("C04", S->obtained.empty() && !op_block_failed(), "C04:not-reusable",
                  "after Reset a request of %llu bytes that fitted the retained block before needed a new block", (unsigned long long)r.size);
        if (p) {
            int id = S->next_tok++;
            if (r.kind && !m.mbs.empty()) ++m.mbs.back().cleanups;
            add_ext(m, reinterpret_cast<u64>(p), r.size, r.align, reinterpret_cast<u64>(p), r.size, mix2(u64(id), 5), "allocation", true);
            if (r.kind) m.toks.push_back(Tok{id, p, 1, reinterpret_cast<u64>(p), r.size, mix2(u64(id), 5)});
            expect_alloc(m, nullptr, r.size);
            log_req(m, r.kind, r.size, r.align);
        }
        metrics_blocks(m);
        check_hooks(m, "refill");
        if (!p) break;
    }
}
void do_destroy(int slot) {
    MA& m = *S->slot[slot];
    cont_drop(&m);
    verify_exts(m, "C01,C02,C03");
    u64 space = m.space(), waste = m.waste();
    u64 life = (clk::steady() - m.birth);
    {
        OpScope sc(m, kDestroying);
        CUT c;
        m.a->~Arena();
    }
    count("op.destroy");
    SIM_CHECK("C03", m.toks.empty(), "C03:missed", "destruction did not run %zu registered cleanup(s)", m.toks.size());
    SIM_CHECK("C04", m.mbs.empty(), "C04:leak", "%zu block(s) were not given back by destruction", m.mbs.size());
    expect_life_hook(m, 'd', 16, space, waste, "destruction");
    if (m.metrics) {
        ++S->local.destruct;
        S->local.used += space;
        S->local.wasted += waste;
        S->local.lifetime(life / 1000000);
    }
    ev(0xDE57 + space);
    S->slot[slot].reset();
}
void do_move(MA& m, bool keep) {
    Zombie z{m.a, std::move(m.storage)};
    m.storage.reset(new char[sizeof(Arena)]);
    auto* before = m.res();
    {
        OpScope sc(m);
        CUT c;
        m.a = new (m.storage.get()) Arena(std::move(*z.a));
    }
    count("op.move");
    SIM_CHECK("C05", S->hooks.empty() || m.metrics, "C05:move", "moving an arena ran a hook");
    SIM_CHECK("C04,C06", z.a->SpaceAllocated() == 0, "C04:moved-from", "a moved-from arena still reports allocated space");
    SIM_CHECK("C06", m.res() == before, "C06:resource-changed", "the resource of the arena changed by moving it");
    S->zombies.push_back(std::move(z));
    (void)keep;
}
void kill_zombie(std::size_t i) {
    Zombie z = std::move(S->zombies[i]);
    S->zombies.erase(S->zombies.begin() + long(i));
    S->hooks.clear();
    MA dummy;
    dummy.id = -5;
    dummy.pair = 0;
    dummy.phase = kDestroying;
    u64 frees = blk::live_blocks();
    {
        OpScope sc(dummy, kDestroying);
        CUT c;
        z.a->~Arena();
    }
    SIM_CHECK("C05", S->hooks.empty(), "C05:moved-from", "destroying a moved-from arena ran the hook '%c'", S->hooks.empty() ? '?' : S->hooks[0].type);
    SIM_CHECK("C04,C06", blk::live_blocks() == frees, "C04:moved-from-free", "destroying a moved-from arena gave back blocks");
    count("op.destroy_moved");
}

void check_queries(MA& m, u64 sel) {
    auto name = [](ArenaContainStatus s) { return int(s); };
    std::size_t n = m.exts.size();
    for (std::size_t k = 0; k < n && k < 12; ++k) {
        auto& x = m.exts[(k + sel) % n];
        if (!x.size) continue;
        for (u64 off : {u64(0), x.size - 1, x.size / 2}) {
            auto s = m.a->check(reinterpret_cast<const char*>(x.addr + off));
            SIM_CHECK("C01", s == ArenaContainStatus::BlockUsed, "C01:check-used", "check() says %d for byte %llu of a live allocation of %llu",
                      name(s), (unsigned long long)off, (unsigned long long)x.size);
        }
    }
    // memory this arena does not own
    static char stat[8];
    SIM_CHECK("C01", m.a->check(stat) == ArenaContainStatus::NotContain, "C01:check-foreign", "check() claims static memory");
    for (auto& b : m.mbs) {
        for (u64 p : {b.addr - 1, b.addr + b.size}) {
            bool own = false;
            for (auto& o : m.mbs)
                if (p >= o.addr && p < o.addr + o.size) own = true;
            if (own) continue;
            auto s = m.a->check(reinterpret_cast<const char*>(p));
            SIM_CHECK("C01", s == ArenaContainStatus::NotContain, "C01:check-foreign", "check() says %d for a byte %s a block", name(s),
                      p < b.addr ? "just before" : "just behind");
        }
        auto s = m.a->check(reinterpret_cast<const char*>(b.addr + sel % kHdr));
        SIM_CHECK("C01", s != ArenaContainStatus::NotContain, "C01:check-own", "check() denies the header of an owned block");
        s = m.a->check(reinterpret_cast<const char*>(b.addr + b.size - 1));
        SIM_CHECK("C01", s != ArenaContainStatus::NotContain, "C01:check-own", "check() denies the last byte of an owned block");
        if (!m.fuzzy && MA::freeof(b) > 0) {
            s = m.a->check(reinterpret_cast<const char*>(b.addr + b.end + sel % MA::freeof(b)));
            SIM_CHECK("C01", s == ArenaContainStatus::BlockUnUsed, "C01:check-unused", "check() says %d for a free byte", name(s));
        }
        if (b.cleanups) {
            s = m.a->check(reinterpret_cast<const char*>(b.addr + b.size - 1 - sel % (b.cleanups * kNode)));
            SIM_CHECK("C01", s == ArenaContainStatus::BlockCleanup, "C01:check-cleanup", "check() says %d for a cleanup record", name(s));
        }
    }
    for (auto& o : S->slot)
        if (o && o.get() != &m)
            for (auto& x : o->exts)
                if (x.size)
                    SIM_CHECK("C01", m.a->check(reinterpret_cast<const char*>(x.addr)) == ArenaContainStatus::NotContain, "C01:check-foreign",
                              "check() claims memory of another arena");
    for (auto& b : blk::all())
        if (!b.live && !blk::find(b.addr))
            SIM_CHECK("C01", m.a->check(reinterpret_cast<const char*>(b.addr + b.size / 2)) == ArenaContainStatus::NotContain ||
                               blk::find(b.addr + b.size / 2),
                      "C01:check-freed", "check() claims memory that was given back");
}

// ------------------------------------------------------------------ metrics
template <typename T>
void drop_table(T& t) {
    T e;
    t.swap(e);
}
#define MEQ(what, real, model)                                                                                                   \
    SIM_CHECK("C07", u64(real) == u64(model), "C07:" what, "%s " what " is %llu, the history implies %llu", which, (unsigned long long)(real), \
              (unsigned long long)(model))
void compare_metrics(const Metrics& m, const char* which, bool global) {
    auto& l = sm::local_arena_metrics;
    auto& g = sm::global_arena_metrics;
    MEQ("init_count", global ? u64(g.init_count) : u64(l.init_count), m.init);
    MEQ("destruct_count", global ? u64(g.destruct_count) : u64(l.destruct_count), m.destruct);
    MEQ("alloc_count", global ? u64(g.alloc_count) : u64(l.alloc_count), m.alloc);
    MEQ("newblock_count", global ? u64(g.newblock_count) : u64(l.newblock_count), m.newblock);
    MEQ("reset_count", global ? u64(g.reset_count) : u64(l.reset_count), m.reset);
    MEQ("space_allocated", global ? u64(g.space_allocated) : u64(l.space_allocated), m.allocated);
    MEQ("space_resettled", global ? u64(g.space_resettled) : u64(l.space_resettled), m.resettled);
    MEQ("space_used", global ? u64(g.space_used) : u64(l.space_used), m.used);
    MEQ("space_wasted", global ? u64(g.space_wasted) : u64(l.space_wasted), m.wasted);
    for (u64 i = 0; i < 8; ++i) {
        MEQ("size histogram", global ? u64(g.alloc_size_bucket_counter.at(i)) : l.alloc_size_bucket_counter.at(i), m.ah[i]);
        MEQ("lifetime histogram", global ? u64(g.destruct_lifetime_bucket_counter.at(i)) : l.destruct_lifetime_bucket_counter.at(i), m.lh[i]);
    }
    std::map<std::string, u64> real;
    if (global) {
        for (auto& [k, v] : g.arena_alloc_counter)
            if (u64(v)) real[k] = u64(v);
    } else {
        for (auto& [k, v] : l.arena_alloc_counter)
            if (v) real[k] = v;
    }
    std::map<std::string, u64> want;
    for (auto& [k, v] : m.loc)
        if (v) want[k] = v;
    SIM_CHECK("C07", real == want, "C07:location totals", "%s per-location byte totals differ from the history", which);
}
// fail > 0: the fail-th allocation of the report (and the n-1 following ones) fails
void do_report(i64 failk = 0, i64 n = 1) {
    bool failed = false;
    if (failk > 0) heap::plan(failk - 1, n);
    try {
        CUT c;
        sm::local_arena_metrics.report_to_global_metrics();
    } catch (const std::bad_alloc&) {
        failed = true;
    }
    g_cut = 0;
    u64 fired = heap::fired();
    heap::clear_plan();
    if (failed) {
        SIM_CHECK("C07", fired > 0, "C07:report", "a report threw bad_alloc although memory was available");
        count("fault.malloc_in_report");
        interesting();
        return;  // nothing was reported: the local metrics are still there and can be reported again
    }
    S->global.add(S->local);
    S->local = Metrics{};
    count("op.report");
}
void do_render() {
    std::string s;
    {
        CUT c;
        std::string t = sm::global_arena_metrics.string();
        Harness h;
        s.assign(t.data(), t.size());
    }
    auto has = [&](const char* k, u64 v) {
        std::string want = std::string("  ") + k + ": " + std::to_string(v) + "\n";
        SIM_CHECK("C07", s.find(want) != std::string::npos, "C07:render", "rendered metrics do not contain '%s'", want.c_str());
    };
    has("init_count", S->global.init);
    has("reset_count", S->global.reset);
    has("destruct_count", S->global.destruct);
    has("alloc_count", S->global.alloc);
    has("newblock_count", S->global.newblock);
    has("space_allocated", S->global.allocated);
    has("space_used", S->global.used);
    has("space_wasted", S->global.wasted);
    count("op.render");
}

// ------------------------------------------------------------------ the world
struct ArenaWorld final : World
{
    const char* name() const override { return "arena"; }
    const std::vector<OpDesc>& ops() const override { return kOps; }
    const char* components() const override {
        return "real: arena/arena.hpp, arena/arena.cc, arena/arenahelper.hpp, align/align.hpp, arena/metrics.hpp, arena/metrics.cc, std::pmr "
               "containers; simulated: block allocator (block_alloc/block_dealloc), steady and system clock, malloc/operator new ledger; "
               "recorded: logger and arena hooks";
    }

    void generate(Rng& r, const std::string& prop, Trace& t) override {
        t.cfg["placement"] = i64(r.below(4));
        t.cfg["align16"] = i64(r.chance(1, 2));
        bool metrics = prop == "C07";
        t.cfg["metrics"] = metrics;
        if (metrics) {
            t.cfg["wall0"] = r.range(-1000000000, 2000000000);
            t.cfg["clock0"] = r.range(1, 1000000);
        }
        int faults = int(r.below(4));  // swarm: which fault kinds are enabled in this run
        if (prop == "C02") faults = 1 + int(r.below(3));
        bool f_kth = faults & 1, f_out = faults & 2;
        bool f_cap = prop == "C02" ? r.chance(1, 3) : r.chance(1, 10);
        if (prop == "C01" || prop == "C04") {
            if (r.chance(1, 2)) f_kth = f_out = f_cap = false;  // fault-free configuration
        }
        bool f_heap = prop != "C07" && faults && r.chance(1, 3);
        int nar = 1 + int(r.below(3));
        u64 maxsz = r.pick<u64>({40, 120, 300, 1000, 3000});
        bool tight = r.chance(1, 2);
        // weights
        std::vector<u32> w(kOps.size(), 0);
        w[ALLOC] = 14;
        w[ALLOCC] = 6;
        // objects that take more arena memory in their constructors: exact accounting stops with them
        bool deep = prop != "C07" && r.chance(1, prop == "C04" || prop == "C05" ? 5 : 2);
        w[CREATE] = 10;
        w[ARRAY] = 4;
        w[OWN] = 3;
        w[RAWPMR] = 3;
        w[RESET] = 3;
        w[DESTROY] = 1;
        w[MOVE] = 1;
        w[ZOMBIE_DEL] = 1;
        w[CHECKS] = 2;
        w[NEW] = 2;
        w[HEAL] = 1;
        w[HUGE_REQ] = 1;
        w[WRITE] = 2;
        if (f_kth) w[BLKFAIL] = 5;
        if (f_out) w[OUTAGE] = 2, w[HEAL] = 2;
        if (f_cap) w[CAP] = 2, w[HEAL] = 2;
        if (f_heap) w[HEAPOUT] = 2, w[HEAL] = 2;
        if (prop == "C01") w[CHECKS] = 8, w[WRITE] = 5, w[COBJ] = 1, w[COBJ_GROW] = 2;
        if (prop == "C02") w[BLKFAIL] *= 2, w[HUGE_REQ] = 6, w[RESET] = 4, w[CHECKS] = 1;
        if (prop == "C03") w[ALLOCC] = 12, w[OWN] = 6, w[CREATE] = 18, w[COBJ] = 4, w[COBJ_GROW] = 8, w[RESET] = 4, w[ALLOC] = 6, w[MOVE] = 2;
        if (prop == "C04") w[REFILL] = 5, w[RESET] = 4, w[MOVE] = 2, w[DESTROY] = 2;
        if (prop == "C05") w[RESET] = 4, w[MOVE] = 2, w[ZOMBIE_DEL] = 2, w[DESTROY] = 2, w[CHECKS] = 0;
        if (prop == "C06")
            w[CONT_NEW] = 7, w[CONT_OP] = 30, w[CONT_DEL] = 2, w[RAWPMR] = 8, w[COBJ] = 2, w[COBJ_GROW] = 4, w[MOVE] = 4, w[ZOMBIE_DEL] = 3, w[ALLOC] = 5,
            w[CREATE] = 4, w[ALLOCC] = 2, w[ARRAY] = 1, w[RESET] = 2;
        if (metrics) {
            w[CLOCK] = 10;
            w[WALLJUMP] = 3;
            w[REPORT] = 3;
            w[LRESET] = 1;
            w[GSTRING] = 2;
            w[DESTROY] = 5;
            w[NEW] = 6;
            w[MOVE] = 2;
            w[CHECKS] = 0;
        }
        // swarm: drop some operation kinds
        for (auto& x : w)
            if (x && r.chance(1, 8)) x = 0;
        w[ALLOC] += 1;
        w[NEW] += 1;
        int n = 5 + int(r.below(r.chance(1, 4) ? 90 : 30));
        bool vast = r.chance(1, 300);  // many or large objects
        if (vast) n = 4 + int(r.below(9)), w[BULK] = 12;
        auto add = [&](int code, std::initializer_list<i64> a) {
            Op o;
            o.code = code;
            int i = 0;
            for (i64 x : a) o.a[i++] = x;
            t.ops.push_back(o);
        };
        auto size = [&]() -> i64 {
            if (vast && r.chance(1, 3)) return r.pick<i64>({32768, 65536, 65536, 131072, 262144, 1 << 20}) + r.range(-100, 40);
            switch (r.below(8)) {
                case 0: return i64(r.below(9));
                case 1: return i64(64ULL << r.below(7)) - i64(kHdr) + r.range(-33, 33);
                case 2: return i64(64ULL << r.below(tight ? 4 : 9)) + r.range(-40, 40);
                case 3: if (metrics) return r.pick<i64>({64, 128, 256, 512, 1024, 2048, 4096, 1 << 20}) + r.range(-1, 1); [[fallthrough]];
                default: return i64(r.below(maxsz));
            }
        };
        auto mkarena = [&](i64 slot) {
            i64 mask = r.chance(1, 3) ? 31 : i64(r.below(32));
            if (prop == "C05" && r.chance(1, 2)) mask |= 31;
            i64 e = tight ? i64(r.below(4)) : i64(r.below(8));
            add(NEW, {slot, e, i64(r.below(6)), tight ? i64(r.below(4)) : i64(r.below(8)), mask | i64(r.below(4)) << 5 | i64(r.chance(1, 4)) << 7});
        };
        if (f_heap && r.chance(1, 3)) add(HEAPOUT, {1});
        for (int i = 0; i < nar; ++i) mkarena(i);
        bool pending_fault = false;
        for (int i = 0; i < n; ++i) {
            int code = int(r.weighted(w));
            i64 s = i64(r.below(u64(nar)));
            if (pending_fault) {  // faults directly before an operation that creates in-flight state
                pending_fault = false;
                code = r.pick({int(ALLOC), int(ALLOCC), int(CREATE), int(OWN), int(CREATE), int(ALLOCC)});
                if (prop == "C06") code = r.pick({int(CONT_OP), int(RAWPMR), int(CONT_OP), int(COBJ_GROW), int(COBJ)});
            }
            switch (code) {
                case NEW: mkarena(i64(r.below(kSlots))); break;
                case ALLOC: add(ALLOC, {s, size(), r.pick<i64>({8, 8, 8, 16, 32})}); break;
                case ALLOCC: add(ALLOCC, {s, size(), i64(r.below(6))}); break;
                case CREATE: add(CREATE, {s, i64(r.below(deep ? 13 : 11)), i64(r.below(1000))}); break;
                case ARRAY: add(ARRAY, {s, i64(r.below(deep ? 8 : 7)), i64(r.below(r.chance(1, 4) ? 300 : 12))}); break;
                case OWN: add(OWN, {s}); break;
                case CONT_NEW: add(CONT_NEW, {s, i64(r.below(6))}); break;
                case CONT_OP: add(CONT_OP, {i64(r.below(8)), i64(r.below(60)), i64(r.below(100000))}); break;
                case CONT_DEL: add(CONT_DEL, {i64(r.below(8))}); break;
                case RAWPMR: add(RAWPMR, {s, size(), r.pick<i64>({1, 2, 4, 8, 16, 32})}); break;
                case COBJ: add(COBJ, {s, 0, 0}); break;
                case COBJ_GROW: add(COBJ_GROW, {i64(r.below(16)), i64(r.below(80)), i64(r.below(1000))}); break;
                case RESET: add(RESET, {s}); break;
                case DESTROY: add(DESTROY, {s}); break;
                case MOVE: add(MOVE, {s, i64(r.below(2))}); break;
                case ZOMBIE_DEL: add(ZOMBIE_DEL, {i64(r.below(4))}); break;
                case CHECKS: add(CHECKS, {s, i64(r.below(1000))}); break;
                case REFILL: add(REFILL, {s}); break;
                case BLKFAIL:
                    add(BLKFAIL, {r.chance(2, 3) ? i64(0) : i64(r.below(3)), r.chance(3, 4) ? i64(1) : i64(r.below(5)) + 1});
                    pending_fault = r.chance(1, 2);
                    break;
                case OUTAGE: add(OUTAGE, {1}); break;
                case HEAPOUT:
                    add(HEAPOUT, {1});
                    if (r.chance(1, 2)) mkarena(i64(r.below(kSlots)));
                    if (r.chance(1, 3)) add(HUGE_REQ, {s, i64(r.below(6)), i64(r.below(130))});
                    break;
                case CAP: add(CAP, {i64(r.below(12)) * 256}); break;
                case HEAL: add(HEAL, {}); break;
                case WRITE: add(WRITE, {s, i64(r.below(1000))}); break;
                case CLOCK: {
                    i64 ms = r.chance(1, 2) ? r.pick<i64>({0, 1, 2, 4, 5, 6, 9, 10, 11, 49, 50, 51, 99, 100, 101, 199, 200, 201, 499, 500, 501, 999, 1000, 1001})
                                            : i64(r.below(1500));
                    if (r.chance(1, 30)) ms = 86400000LL * 30;
                    add(CLOCK, {ms, 0});
                    break;
                }
                case WALLJUMP: add(WALLJUMP, {r.range(-100000, 100000)}); break;
                case REPORT: add(REPORT, {r.chance(1, 3) ? r.range(1, 6) : 0, r.chance(1, 2) ? 1 : 100}); break;
                case LRESET: add(LRESET, {}); break;
                case GSTRING: add(GSTRING, {}); break;
                case HUGE_REQ: add(HUGE_REQ, {s, i64(r.below(8)), i64(r.below(130))}); break;
                case BULK: add(BULK, {s, i64(r.below(7)), r.range(40, 330), i64(r.below(1000))}), w[BULK] = 0; break;
                default: break;
            }
        }
    }

    void verify_all() {
        for (auto& m : S->slot) {
            if (!m) continue;
            verify_exts(*m, "C01,C02");
            check_accounting(*m);
        }
        if (about("C06")) {
            for (auto& c : S->conts) verify_cont(*c);
            for (auto& m : S->slot) {
                if (!m) continue;
                u64 fired = heap::fired();
                auto* r = m->res();
                SIM_CHECK("C06", r || heap::fired() != fired, "C06:no-resource", "the arena has no memory resource although memory was available");
                if (!r) continue;
                SIM_CHECK("C06", r->get_arena() == m->a, "C06:get-arena", "the resource of an arena belongs to another arena object");
                const std::pmr::memory_resource& base = *r;
                SIM_CHECK("C06", base.is_equal(*r), "C06:equal", "a resource is not equal to itself");
                SIM_CHECK("C06", !base.is_equal(*std::pmr::new_delete_resource()), "C06:equal", "an arena resource equals the heap resource");
                for (auto& o : S->slot)
                    if (o && o != m && o->res())
                        SIM_CHECK("C06", !base.is_equal(*o->res()), "C06:equal", "resources of different arenas compare equal");
            }
        }
        if (S->use_metrics) {
            compare_metrics(S->local, "local", false);
            compare_metrics(S->global, "global", true);
        }
        u64 h = 0x51;
        for (auto& m : S->slot) {
            if (!m) {
                h = mix2(h, 0);
                continue;
            }
            u64 f = m->mbs.empty() ? 99 : MA::freeof(m->mbs.back());
            u64 lg = 0;
            while (f >> lg && lg < 20) ++lg;
            h = mix2(h, (m->mbs.size() << 20) ^ (std::min<u64>(m->toks.size(), 8) << 10) ^ lg ^ (u64(m->mask) << 32) ^ (u64(m->fuzzy) << 40));
        }
        note_state(h);
    }

    void step(const Op& o) {
        int s = int(u64(o.a[0]) % kSlots);
        MA* m = S->slot[s].get();
        switch (o.code) {
            case NEW: new_arena(s, o); break;
            case ALLOC:
                if (m) do_alloc(*m, u64(o.a[1] < 0 ? 0 : o.a[1]), o.a[2] == 16 ? 16 : o.a[2] == 32 ? 32 : 8);
                break;
            case ALLOCC:
                if (m) do_alloc_cleanup(*m, u64(o.a[1] < 0 ? 0 : o.a[1]), int(u64(o.a[2]) % 3), int(u64(o.a[2]) / 3 % 2));
                break;
            case CREATE:
                if (m) do_create(*m, int(o.a[1]), u64(o.a[2]));
                break;
            case ARRAY:
                if (m) do_array(*m, int(o.a[1]), u64(o.a[2]));
                break;
            case OWN:
                if (m) do_own(*m);
                break;
            case CONT_NEW:
                if (m) cont_new(*m, int(o.a[1]));
                break;
            case CONT_OP:
                if (!S->conts.empty()) cont_op(*S->conts[u64(o.a[0]) % S->conts.size()], u64(o.a[1]), u64(o.a[2]));
                break;
            case CONT_DEL:
                if (!S->conts.empty()) {
                    auto i = u64(o.a[0]) % S->conts.size();
                    verify_cont(*S->conts[i]);
                    cont_free(*S->conts[i]);
                    S->conts.erase(S->conts.begin() + long(i));
                }
                break;
            case RAWPMR: {
                u64 al = 1;
                for (u64 x : {2, 4, 8, 16, 32})
                    if (u64(o.a[2]) == x) al = x;
                if (m) do_rawpmr(*m, u64(o.a[1] < 0 ? 0 : o.a[1]), al);
                break;
            }
            case COBJ:
                if (m) do_cobj(*m);
                break;
            case COBJ_GROW:
                if (!S->cobjs.empty()) {
                    auto* c = static_cast<ContObj*>(S->cobjs[u64(o.a[0]) % S->cobjs.size()]);
                    MA* owner = by_id(S->objs[c->tok].arena);
                    if (!owner) break;
                    std::string str = mkstr(u64(o.a[2]), u64(o.a[1]) % 100);
                    if (c->model->size() < 24)
                        pmr_try(*owner, "push_back on a pmr vector in the arena", [&] { c->v.emplace_back(str.c_str()); },
                                [&] { c->model->push_back(str); });
                    c->verify("C03,C06,C01");
                }
                break;
            case RESET:
                if (m) {
                    do_reset(*m);
                    m->reqs.clear();
                }
                break;
            case DESTROY:
                if (m) do_destroy(s);
                break;
            case MOVE:
                if (m) {
                    do_move(*m, true);
                    if (o.a[1] & 1) kill_zombie(S->zombies.size() - 1);
                }
                break;
            case ZOMBIE_DEL:
                if (!S->zombies.empty()) kill_zombie(u64(o.a[0]) % S->zombies.size());
                break;
            case CHECKS:
                if (m) check_queries(*m, u64(o.a[1]));
                break;
            case REFILL:
                if (m) do_refill(*m);
                break;
            case BLKFAIL: blk::plan(o.a[0], o.a[1]); break;
            case OUTAGE: blk::outage(o.a[0] != 0); break;
            case CAP: blk::cap(i64(blk::live_bytes()) + o.a[0]); break;
            case HEAL:
                blk::heal();
                heap::clear_plan();
                break;
            case HEAPOUT:
                if (S->use_metrics) break;
                if (o.a[0]) {
                    heap::plan_cap(0);
                    count("fault.heap_outage");
                } else {
                    heap::clear_plan();
                }
                break;
            case WRITE:
                if (m && !m->exts.empty()) {
                    auto& x = m->exts[u64(o.a[1]) % m->exts.size()];
                    if (x.psize && blk::live_range(x.addr, x.size)) {
                        u64 ns = mix2(x.seed, u64(o.a[1]));
                        for (auto& t : m->toks)
                            if (t.mem == x.paddr && t.memlen) t.seed = ns;
                        x.seed = ns;
                        fill_pat(x.paddr, x.psize, ns);
                    }
                }
                break;
            case CLOCK: clk::advance(u64(o.a[0]) * 1000000ULL); break;
            case WALLJUMP:
                clk::jump_system(o.a[0] * 1000000000LL);
                count("fault.wall_clock_jump");
                interesting();
                break;
            case REPORT:
                if (S->use_metrics) do_report(o.a[0], o.a[1]);
                break;
            case LRESET:
                if (S->use_metrics) {
                    CUT c;
                    sm::local_arena_metrics.reset();
                    Harness h;
                    S->local = Metrics{};
                }
                break;
            case GSTRING:
                if (S->use_metrics) do_render();
                break;
            case HUGE_REQ:
                if (m) {
                    u64 sz = 0;
                    bool imp = false;
                    switch (o.a[1] >= 6 ? 6 : u64(o.a[1]) % 6) {
                        case 6: sz = ((o.a[1] & 1 ? 1ULL : 3ULL) << 32) + u64(o.a[2]); break;
                        case 0: sz = ~0ULL - u64(o.a[2]) % 40; imp = true; break;
                        case 1: sz = (1ULL << 63) + u64(o.a[2]); break;
                        case 2: sz = (1ULL << 40) + u64(o.a[2]); break;
                        case 3: sz = ~0ULL - u64(o.a[2]) * 8 - 7; imp = true; break;
                        default: break;
                    }
                    count("fault.impossible_size");
                    interesting();
                    u64 k = o.a[1] >= 6 ? 0 : u64(o.a[1]) % 6;
                    if (k < 4) {
                        // whatever the representability, the simulated allocator refuses sizes like these
                        switch (u64(o.a[2]) % 4) {
                            case 0: do_alloc(*m, sz, 8, true); break;
                            case 1: do_alloc(*m, sz, 32, true); break;
                            case 2: do_alloc_cleanup(*m, sz, 0, 0, true); break;
                            default: do_rawpmr(*m, sz, 8); break;
                        }
                        (void)imp;
                    } else if (k == 4) {
                        do_array(*m, int(o.a[2]), ~0ULL / 24 + 1 + u64(o.a[2]) % 9);
                    } else {
                        do_array(*m, int(o.a[2]), (1ULL << 61) + u64(o.a[2]) % 9);
                    }
                }
                break;
            case BULK:  // many operations of a kind
                for (u64 i = 0; m && i < u64(o.a[2]) % 1024; ++i) {
                    u64 x = mix2(u64(o.a[3]), i);
                    u64 n = x >> 8 & 3 ? (x >> 16) % 40 : (x >> 16) % 200;
                    switch (u64(o.a[1]) % 7 == 6 ? x % 4 : u64(o.a[1]) % 7) {
                        case 0: do_alloc(*m, n, (x & 15) == 0 ? 32 : 8); break;
                        case 1: do_alloc_cleanup(*m, n, int(x % 3), int(x / 3 % 2)); break;
                        case 2: do_create(*m, int((x >> 4) % 11), x % 1000); break;
                        case 3: do_own(*m); break;
                        case 4: do_create(*m, int(u64(o.a[3]) % 11), x % 1000); break;
                        default: do_alloc(*m, u64(o.a[3]) % 100, 8); break;
                    }
                }
                break;
            default: break;
        }
    }

    void run(const Trace& t) override {
        State st;
        S = &st;
        st.seed = t.seed;
        st.use_metrics = t.c("metrics") != 0;
        g_ncookie = 0;
        blk::begin_run(t.seed, t.c("placement"), t.c("align16"));
        clk::begin_run(u64(t.c("clock0", 1)) * 1000000ULL, t.c("wall0", 0) * 1000000000LL);
        sm::local_arena_metrics = sm::LocalArenaMetrics();
        sm::global_arena_metrics.reset();
        drop_table(sm::global_arena_metrics.arena_alloc_counter);
        for (std::size_t i = 0; i < t.ops.size(); ++i) {
            g_slot->step.store(i);
            const Op& o = t.ops[i];
            logf("%3zu %s %lld %lld %lld %lld\n", i, kOps[size_t(o.code)].name, (long long)o.a[0], (long long)o.a[1], (long long)o.a[2],
                 (long long)o.a[3]);
            ev(u64(o.code) + 1);
            step(o);
            verify_all();
        }
        g_slot->step.store(t.ops.size());
        // faults stop: every surviving arena must serve again
        blk::heal();
        if (!st.use_metrics) heap::clear_plan();
        for (int s = 0; s < kSlots; ++s)
            if (st.slot[s]) {
                if (!st.use_metrics) (void)do_cobj(*st.slot[s]);
                do_alloc(*st.slot[s], 24, 8);
                do_alloc_cleanup(*st.slot[s], 24, 1, 0);
                (void)do_create(*st.slot[s], 2, 0);
            }
        verify_all();
        for (int s = 0; s < kSlots; ++s)
            if (st.slot[s]) check_queries(*st.slot[s], t.seed % 997);
        bool rev = t.seed & 1;
        for (int k = 0; k < kSlots; ++k) {
            int s = rev ? kSlots - 1 - k : k;
            if (st.slot[s]) do_destroy(s);
        }
        while (!st.zombies.empty()) kill_zombie(0);
        SIM_CHECK("C04", blk::live_blocks() == 0, "C04:leak", "%llu block(s) were never given back", (unsigned long long)blk::live_blocks());
        SIM_CHECK("C03", st.owned_alive == 0, "C03:own-leak", "%llu owned object(s) were never deleted", (unsigned long long)st.owned_alive);
        for (auto& [k, v] : st.objs) (void)k, (void)v;
        if (st.use_metrics) {
            compare_metrics(st.local, "local", false);
            do_report();
            compare_metrics(st.local, "local", false);
            compare_metrics(st.global, "global", true);
        }
        {
            CUT c;
            sm::local_arena_metrics = sm::LocalArenaMetrics();
            drop_table(sm::global_arena_metrics.arena_alloc_counter);
        }
        heap::check_empty("C06,C07", "leak:arena-internals");
        S = nullptr;
    }
};
}  // namespace

sim::World* sim::make_world() { return new ArenaWorld(); }
