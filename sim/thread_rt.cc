#include "thread_rt.hpp"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

// No std containers here: their code could come from an instrumented translation unit.
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_trylock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real_sched_yield();
int __real_nanosleep(const timespec*, timespec*);
int __real___cxa_guard_acquire(u_int64_t*);
void __real___cxa_guard_release(u_int64_t*);
void __real___cxa_guard_abort(u_int64_t*);
}

namespace sim::thr {
namespace {
enum Status { kReady, kBlocked, kExiting, kDone };
struct T
{
    pthread_t th;
    int futex;
    Status st;
    int cut;
    u32 pos;       // trace position of the current or the next operation
    bool in_op;
    bool more;     // there are operations left
    u64 pt;        // points in the current operation
    Preempt pre[48];
    int npre;
    u32 clk[kMax + 1];
    u64 wait_addr;
    i64 oom_at, oom_len;
    u64 allocs, fired;
    u64 now;
    u64 stack_lo, stack_hi;
    u64 spin;
    u32 op_of_clk[4096];
};
T s_t[kMax];
int s_n = 0, s_cur = -1;
bool s_active = false;
int s_main_futex = 0;
void (*s_body)(int) = nullptr;
int s_focus = -1;
u32 s_quota = 0;
u64 s_points = 0, s_switches = 0, s_hash = 0;
bool s_overlap = false;
u64 s_garbage = 0;
thread_local int tl_id __attribute__((tls_model("initial-exec"))) = -1;

int futex(int* p, int op, int v) { return int(syscall(SYS_futex, p, op, v, nullptr, nullptr, 0)); }
void wait_for(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) futex(f, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void post(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    futex(f, FUTEX_WAKE_PRIVATE, 1);
}

[[noreturn]] void die(const char* kind, const char* fmt, ...) {
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (int i = 0; i < s_n; ++i) s_t[i].cut = 0;
    s_active = false;
    char k[160];
    snprintf(k, sizeof k, "%s:%s", g_prop.c_str(), kind);
    fail(k, "%s", b);
}

// ------------------------------------------------------------------ scheduling
int pick() {
    if (s_focus >= 0 && s_t[s_focus].st == kReady && s_quota > 0) return s_focus;
    int best = -1;
    for (int i = 0; i < s_n; ++i)
        if (s_t[i].st == kReady && (best < 0 || s_t[i].pos < s_t[best].pos)) best = i;
    return best;
}
void hand(int to) {  // the current thread stops here until it is scheduled again
    int me = s_cur;
    if (to == me) return;
    s_hash = mix2(s_hash, u64(to) * 1000003 + s_points);
    s_cur = to;
    if (me >= 0 && s_t[me].in_op && s_t[to].in_op) s_overlap = true;
    post(&s_t[to].futex);
    if (me >= 0) wait_for(&s_t[me].futex);
}
void deadlock() {
    char b[400];
    int n = 0;
    for (int i = 0; i < s_n; ++i)
        if (s_t[i].st == kBlocked) n += snprintf(b + n, sizeof b - size_t(n), " thread %d waits in step %u;", i, s_t[i].pos);
    die("deadlock", "no thread can go on:%s", b);
}
void block_on(u64 addr) {
    T& t = s_t[s_cur];
    t.st = kBlocked;
    t.wait_addr = addr;
    int n = pick();
    if (n < 0) deadlock();
    hand(n);
}
void wake_all(u64 addr) {
    for (int i = 0; i < s_n; ++i)
        if (s_t[i].st == kBlocked && s_t[i].wait_addr == addr) s_t[i].st = kReady;
}
void give_way() {  // yield, sleep, long spinning: somebody else goes on
    int me = s_cur;
    for (int d = 1; d < s_n; ++d) {
        int u = (me + d) % s_n;
        if (s_t[u].st == kReady) {
            s_focus = u;
            s_quota = 1;
            hand(u);
            return;
        }
    }
}
void point() {
    T& t = s_t[s_cur];
    if (t.st == kExiting) return;
    ++s_points;
    ++t.pt;
    if (++t.spin > 3000) {
        t.spin = 0;
        if (t.pt > 400000) die("livelock", "step %u of thread %d does not end although every other thread could go on", t.pos, s_cur);
        give_way();
    }
    for (int i = 0; i < t.npre; ++i)
        if (t.pre[i].at == t.pt) {
            Preempt p = t.pre[i];
            if (p.period)
                t.pre[i].at += p.period;
            else
                t.pre[i].at = 0;
            int u = p.to;
            if (u >= s_n) u %= s_n;
            if (u != s_cur && s_t[u].st == kReady && s_t[u].more) {
                s_focus = u;
                s_quota = p.quota ? p.quota : 1;
                ++s_switches;
                hand(u);
            }
        }
}

// ------------------------------------------------------------------ vector clocks, race detection
struct Cell  // one byte of memory
{
    u32 w_clk;            // last plain write
    u32 w_tid1;           // 1 + thread
    u32 r[kMax];          // plain reads
    u32 aw[kMax], ar[kMax];  // atomic accesses
};
struct Page
{
    u64 base;
    Cell* cells;
};
constexpr u64 kPageBits = 10;
constexpr u64 kPages = 1 << 15;
Page s_pages[kPages];
u8* s_pool = nullptr;
u64 s_pool_used = 0, s_pool_size = 0;
Page* s_last_page = nullptr;

Cell* cell(u64 a) {
    u64 base = a >> kPageBits;
    if (s_last_page && s_last_page->base == base) return &s_last_page->cells[a & ((1 << kPageBits) - 1)];
    u64 h = mix64(base);
    for (u64 i = 0; i < kPages; ++i) {
        Page& p = s_pages[(h + i) & (kPages - 1)];
        if (p.cells == nullptr) {
            u64 need = sizeof(Cell) << kPageBits;
            if (s_pool_used + need > s_pool_size) return nullptr;
            p.base = base;
            p.cells = reinterpret_cast<Cell*>(s_pool + s_pool_used);
            s_pool_used += need;
        }
        if (p.base == base) {
            s_last_page = &p;
            return &p.cells[a & ((1 << kPageBits) - 1)];
        }
    }
    return nullptr;
}

struct Sync
{
    u64 addr;
    u32 clk[kMax];
};
constexpr u64 kSyncs = 1 << 14;
Sync s_syncs[kSyncs];
Sync* sync_of(u64 addr) {
    u64 h = mix64(addr);
    for (u64 i = 0; i < kSyncs; ++i) {
        Sync& s = s_syncs[(h + i) & (kSyncs - 1)];
        if (s.addr == 0) s.addr = addr;
        if (s.addr == addr) return &s;
    }
    return &s_syncs[0];
}
void acquire(u64 addr) {
    Sync* s = sync_of(addr);
    T& t = s_t[s_cur];
    for (int i = 0; i < s_n; ++i)
        if (s->clk[i] > t.clk[i]) t.clk[i] = s->clk[i];
}
void release(u64 addr, bool replace) {
    Sync* s = sync_of(addr);
    T& t = s_t[s_cur];
    for (int i = 0; i < s_n; ++i)
        if (replace || t.clk[i] > s->clk[i]) s->clk[i] = t.clk[i];
    u32 c = ++t.clk[s_cur];
    if (c < 4096) t.op_of_clk[c] = t.pos;
}

// ------------------------------------------------------------------ heap
constexpr u64 kHeap = 0x300000000000ULL;
constexpr u64 kHeapSize = 256ULL << 20;
u8* s_state = nullptr;  // per 16 bytes: 0 unused or red zone, 1 live, 2 freed
u64 s_bump = 0;
struct Hdr
{
    u64 size;
    u32 kind, seq;
};
bool in_heap(u64 a) { return a >= kHeap && a < kHeap + kHeapSize; }

enum Acc { kRead, kWrite, kARead, kAWrite };
const char* what_mem(u64 a, char* b, size_t n) {
    if (in_heap(a)) {
        for (u64 p = (a & ~15ULL);; p -= 16) {  // the header is in front of the block
            if (s_state[(p - kHeap) / 16] == 0 || p == kHeap) {
                auto* h = reinterpret_cast<Hdr*>(p);
                snprintf(b, n, "offset %llu of heap block #%u (%llu bytes)", (unsigned long long)(a - p - 16), h->seq, (unsigned long long)h->size);
                return b;
            }
        }
    }
    for (int i = 0; i < s_n; ++i)
        if (a >= s_t[i].stack_lo && a < s_t[i].stack_hi) {
            snprintf(b, n, "the stack or the thread-local memory of thread %d", i);
            return b;
        }
    return "a global variable";
}
[[noreturn]] void race(u64 a, Acc mine, const char* other, int tid, u32 clk) {
    static const char* const nm[] = {"reads", "writes", "reads (atomic)", "writes (atomic)"};
    char b[128];
    u32 op = clk < 4096 ? s_t[tid].op_of_clk[clk] : s_t[tid].pos;
    die("race", "data race on %s: thread %d %s it in step %u, thread %d %s it in step %u, and nothing orders the two", what_mem(a, b, sizeof b), s_cur,
        nm[mine], s_t[s_cur].pos, tid, other, op);
}
void check_access(u64 addr, u64 n, Acc k) {
    T& t = s_t[s_cur];
    if (in_heap(addr)) {
        u8 st = s_state[(addr - kHeap) / 16], st2 = s_state[(addr + n - 1 - kHeap) / 16];
        if (st == 2 || st2 == 2) {
            char b[128];
            die("use-after-free", "thread %d uses memory that was released: %s", s_cur, what_mem(addr, b, sizeof b));
        }
        if (st == 0 || st2 == 0) die("heap-overflow", "thread %d accesses memory outside of any heap block", s_cur);
    }
    for (u64 i = 0; i < n; ++i) {
        Cell* c = cell(addr + i);
        if (!c) return;
        int me = s_cur;
        if (c->w_tid1 && int(c->w_tid1 - 1) != me && c->w_clk > t.clk[c->w_tid1 - 1]) race(addr + i, k, "wrote", int(c->w_tid1 - 1), c->w_clk);
        for (int u = 0; u < s_n; ++u) {
            if (u == me) continue;
            u32 seen = t.clk[u];
            if ((k == kWrite || k == kAWrite) && c->r[u] > seen) race(addr + i, k, "read", u, c->r[u]);
            if ((k == kWrite || k == kRead) && c->aw[u] > seen) race(addr + i, k, "wrote (atomic)", u, c->aw[u]);
            if (k == kWrite && c->ar[u] > seen) race(addr + i, k, "read (atomic)", u, c->ar[u]);
        }
        switch (k) {
            case kRead: c->r[me] = t.clk[me]; break;
            case kWrite:
                c->w_tid1 = u32(me) + 1;
                c->w_clk = t.clk[me];
                break;
            case kARead: c->ar[me] = t.clk[me]; break;
            case kAWrite: c->aw[me] = t.clk[me]; break;
        }
    }
}
inline bool on() { return tl_id >= 0 && s_active && s_t[tl_id].cut > 0; }
inline void access(const void* p, u64 n, Acc k) {
    if (!on() || n == 0) return;
    u64 a = reinterpret_cast<u64>(p);
    T& t = s_t[s_cur];
    bool mine = a >= t.stack_lo && a < t.stack_hi;
    if (!mine) point();
    check_access(a, n, k);
}

u64 size_hook(const void* p) {
    u64 a = reinterpret_cast<u64>(p);
    if (!in_heap(a)) return ~0ULL;
    return reinterpret_cast<const Hdr*>(a - 16)->size;
}
u32 s_seq = 0;
// nullptr with errno when it has to fail; (void*)1 when the request is not for this heap
void* alloc_hook(size_t n, int kind) {
    if (tl_id < 0 || !s_active) return reinterpret_cast<void*>(1);
    T& t = s_t[tl_id];
    if (t.cut > 0 && kind != 9) {
        u64 k = t.allocs++;
        if ((t.oom_at >= 0 && i64(k) >= t.oom_at && i64(k) < t.oom_at + t.oom_len) || n > (32ULL << 20)) {
            ++t.fired;
            errno = ENOMEM;
            return nullptr;
        }
    }
    u64 sz = (n + 15) / 16 * 16 + (n == 0 ? 16 : 0);
    if (s_bump + sz + 64 > kHeap + kHeapSize) {
        ++t.fired;
        errno = ENOMEM;
        return nullptr;
    }
    auto* h = reinterpret_cast<Hdr*>(s_bump);
    h->size = n;
    h->kind = u32(kind);
    h->seq = s_seq++;
    u64 a = s_bump + 16;
    memset(s_state + (a - kHeap) / 16, 1, sz / 16);
    s_bump = a + sz + 16;
    memset(reinterpret_cast<void*>(a), int((s_garbage = mix64(s_garbage)) & 0xff) | 1, sz);
    return reinterpret_cast<void*>(a);
}
int free_hook(void* p, int kind) {
    u64 a = reinterpret_cast<u64>(p);
    if (!in_heap(a)) return 0;
    auto* h = reinterpret_cast<Hdr*>(a - 16);
    u8 st = s_state[(a - kHeap) / 16];
    if (st == 2) die("double-free", "thread %d releases a heap block of %llu bytes that was released before", tl_id, (unsigned long long)h->size);
    if (st != 1 || s_state[(a - 16 - kHeap) / 16] != 0) die("bad-free", "thread %d releases a pointer that is not the start of a heap block", tl_id);
    if (int(h->kind) != kind) die("bad-free", "thread %d releases a heap block through the wrong function", tl_id);
    u64 sz = (h->size + 15) / 16 * 16 + (h->size == 0 ? 16 : 0);
    if (on()) {
        point();
        check_access(a, sz, kWrite);
    }
    memset(s_state + (a - kHeap) / 16, 2, sz / 16);
    return 1;
}

void* thread_main(void* arg) {
    int id = int(reinterpret_cast<u64>(arg));
    T& t = s_t[id];
    wait_for(&t.futex);
    tl_id = id;
    pthread_attr_t at;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        void* lo;
        size_t sz;
        pthread_attr_getstack(&at, &lo, &sz);
        t.stack_lo = reinterpret_cast<u64>(lo);
        t.stack_hi = t.stack_lo + sz;
        pthread_attr_destroy(&at);
    }
    s_body(id);
    t.st = kExiting;  // destructors of thread-local objects run without preemption
    t.more = false;
    t.in_op = false;
    t.cut = 1;
    return nullptr;
}
}  // namespace

void begin(int n, u64 seed) {
    memset(static_cast<void*>(s_t), 0, sizeof s_t);
    memset(static_cast<void*>(s_syncs), 0, sizeof s_syncs);
    memset(static_cast<void*>(s_pages), 0, sizeof s_pages);
    s_n = n;
    s_points = s_switches = s_hash = 0;
    s_focus = -1;
    s_overlap = false;
    s_last_page = nullptr;
    s_garbage = seed;
    s_seq = 0;
    if (!s_pool) {
        s_pool_size = 512ULL << 20;
        auto map = [](void* at, u64 sz) {
            void* p = mmap(at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
            if (p == MAP_FAILED || (at && p != at)) {
                perror("mmap");
                _exit(3);
            }
            return p;
        };
        s_pool = static_cast<u8*>(map(nullptr, s_pool_size));
        s_state = static_cast<u8*>(map(nullptr, kHeapSize / 16));
        map(reinterpret_cast<void*>(kHeap), kHeapSize);
    }
    s_pool_used = 0;
    s_bump = kHeap + 64;
    for (int i = 0; i < n; ++i) {
        s_t[i].st = kReady;
        s_t[i].more = true;
        s_t[i].clk[i] = 1;
        s_t[i].op_of_clk[1] = u32(-1);
        s_t[i].oom_at = -1;
        s_t[i].pos = u32(i);
    }
    g_alloc_hook = alloc_hook;
    g_free_hook = free_hook;
    g_size_hook = size_hook;
    g_clock_hook = now_ns;
}

void run(void (*body)(int)) {
    s_body = body;
    s_cur = -1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 << 10);
    for (int i = 0; i < s_n; ++i)
        if (pthread_create(&s_t[i].th, &at, thread_main, reinterpret_cast<void*>(u64(i))) != 0) {
            perror("pthread_create");
            _exit(3);
        }
    s_active = true;
    for (int done = 0; done < s_n; ++done) {
        int n = pick();
        if (n < 0) deadlock();
        s_cur = n;
        post(&s_t[n].futex);
        wait_for(&s_main_futex);  // a thread is at its end (s_cur says which)
        int f = s_cur;
        s_t[f].st = kExiting;
        s_t[f].th = s_t[f].th;
        pthread_join(s_t[f].th, nullptr);
        s_t[f].st = kDone;
        if (s_focus == f) s_focus = -1;
    }
    s_active = false;
    pthread_attr_destroy(&at);
}
int self() { return tl_id; }
bool pending(int t) { return s_t[t].more; }
void op_begin(u32 pos, const Preempt* p, int np) {
    T& t = s_t[tl_id];
    t.pos = pos;
    // the thread only starts the operation when it is its turn
    t.st = kReady;
    int n = pick();
    if (n != tl_id) hand(n);
    t.in_op = true;
    t.pt = 0;
    t.spin = 0;
    t.npre = 0;
    for (int i = 0; i < np && t.npre < 48; ++i) t.pre[t.npre++] = p[i];
    u32 c = ++t.clk[tl_id];
    if (c < 4096) t.op_of_clk[c] = pos;
    s_hash = mix2(s_hash, u64(tl_id) << 32 | pos);
}
void op_end() {
    T& t = s_t[tl_id];
    t.in_op = false;
    t.oom_at = -1;
    if (s_focus == tl_id && s_quota > 0 && --s_quota == 0) s_focus = -1;
}
void no_more_ops() {
    T& t = s_t[tl_id];
    t.more = false;
    post(&s_main_futex);  // main joins this thread before anybody else goes on
}

void hb_release(int ch) { release(0x1000 + u64(ch) * 8, false); }
void hb_acquire(int ch) { acquire(0x1000 + u64(ch) * 8); }

Cut::Cut() {
    if (tl_id >= 0) ++s_t[tl_id].cut;
    barrier();
}
Cut::~Cut() {
    barrier();
    if (tl_id >= 0) --s_t[tl_id].cut;
}
Pause::Pause() : saved(tl_id >= 0 ? s_t[tl_id].cut : 0) {
    if (tl_id >= 0) s_t[tl_id].cut = 0;
    barrier();
}
Pause::~Pause() {
    barrier();
    if (tl_id >= 0) s_t[tl_id].cut = saved;
}
void oom(i64 k, i64 len) {
    T& t = s_t[tl_id];
    t.oom_at = k;
    t.oom_len = len;
    t.allocs = t.fired = 0;
}
u64 oom_fired() { return s_t[tl_id].fired; }
void* block_alloc(std::size_t n) {
    void* p = alloc_hook(n, 9);
    if (p == reinterpret_cast<void*>(1)) return __real_malloc(n);
    return p;
}
void block_free(void* p) {
    if (!free_hook(p, 9)) __real_free(p);
}
u64 now_ns() { return tl_id >= 0 ? s_t[tl_id].now : 0; }
void advance(u64 ns) {
    if (tl_id >= 0) s_t[tl_id].now += ns;
}
u64 points() { return s_points; }
u64 switches() { return s_switches; }
u64 sched_hash() { return s_hash; }
bool overlapped() { return s_overlap; }

// ------------------------------------------------------------------ simulated locks
namespace {
struct Lock
{
    u64 addr;
    int owner;    // thread holding it exclusively, -1 none
    int depth;
    u32 readers;  // bit per thread
};
constexpr u64 kLocks = 1 << 10;
Lock s_locks[kLocks];
Lock* lock_of(const volatile void* p) {
    u64 a = reinterpret_cast<u64>(p), h = mix64(a);
    for (u64 i = 0; i < kLocks; ++i) {
        Lock& l = s_locks[(h + i) & (kLocks - 1)];
        if (l.addr == 0) {
            l.addr = a;
            l.owner = -1;
        }
        if (l.addr == a) return &l;
    }
    return nullptr;
}
bool sim_on() { return tl_id >= 0 && s_active && s_t[tl_id].cut > 0; }
int lock_ex(const volatile void* p, bool tr, bool recursive) {
    point();
    Lock* l = lock_of(p);
    for (;;) {
        if (l->owner == s_cur && recursive) {
            ++l->depth;
            return 0;
        }
        if (l->owner < 0 && l->readers == 0) break;
        if (tr) return EBUSY;
        if (l->owner == s_cur) die("deadlock", "thread %d locks a mutex it already holds, in step %u", s_cur, s_t[s_cur].pos);
        count("lock.contended");
        block_on(l->addr);
    }
    l->owner = s_cur;
    l->depth = 1;
    acquire(l->addr);
    return 0;
}
int lock_sh(const volatile void* p, bool tr) {
    point();
    Lock* l = lock_of(p);
    while (l->owner >= 0) {
        if (tr) return EBUSY;
        if (l->owner == s_cur) die("deadlock", "thread %d locks a mutex it already holds, in step %u", s_cur, s_t[s_cur].pos);
        count("lock.contended");
        block_on(l->addr);
    }
    l->readers |= 1u << s_cur;
    acquire(l->addr);
    return 0;
}
int unlock(const volatile void* p) {
    Lock* l = lock_of(p);
    if (l->owner == s_cur) {
        if (--l->depth > 0) return 0;
        l->owner = -1;
    } else if (l->readers & (1u << s_cur)) {
        l->readers &= ~(1u << s_cur);
    } else {
        die("unlock", "thread %d unlocks a mutex it does not hold, in step %u", s_cur, s_t[s_cur].pos);
    }
    release(l->addr, false);
    wake_all(l->addr);
    point();
    return 0;
}
}  // namespace
}  // namespace sim::thr

using namespace sim::thr;
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (!sim_on()) return __real_pthread_mutex_lock(m);
    return lock_ex(m, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!sim_on()) return __real_pthread_mutex_trylock(m);
    return lock_ex(m, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!sim_on()) return __real_pthread_mutex_unlock(m);
    return unlock(m);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!sim_on()) return __real_pthread_rwlock_rdlock(m);
    return lock_sh(m, false);
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if (!sim_on()) return __real_pthread_rwlock_tryrdlock(m);
    return lock_sh(m, true);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!sim_on()) return __real_pthread_rwlock_wrlock(m);
    return lock_ex(m, false, false);
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
    if (!sim_on()) return __real_pthread_rwlock_trywrlock(m);
    return lock_ex(m, true, false);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!sim_on()) return __real_pthread_rwlock_unlock(m);
    return unlock(m);
}
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) {
    if (!sim_on()) return __real_pthread_spin_lock(m);
    return lock_ex(const_cast<int*>(m), false, false);
}
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) {
    if (!sim_on()) return __real_pthread_spin_trylock(m);
    return lock_ex(const_cast<int*>(m), true, false);
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) {
    if (!sim_on()) return __real_pthread_spin_unlock(m);
    return unlock(const_cast<int*>(m));
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!sim_on()) return __real_pthread_once(o, f);
    point();
    u_int64_t a = reinterpret_cast<u_int64_t>(o);
    Lock* l = lock_of(o);
    for (;;) {
        if (*o == 2) {
            acquire(a);
            return 0;
        }
        if (l->owner < 0) break;
        block_on(a);
    }
    l->owner = s_cur;
    try {
        f();
    } catch (...) {
        l->owner = -1;
        wake_all(a);
        throw;
    }
    l->owner = -1;
    *o = 2;
    release(a, false);
    wake_all(a);
    return 0;
}
int __wrap_sched_yield() {
    if (!sim_on()) return __real_sched_yield();
    point();
    give_way();
    return 0;
}
int __wrap_nanosleep(const timespec* a, timespec* b) {
    if (!sim_on()) return __real_nanosleep(a, b);
    advance(sim::u64(a->tv_sec) * 1000000000ULL + sim::u64(a->tv_nsec));
    point();
    give_way();
    return 0;
}
// initialisation of function-local statics
int __wrap___cxa_guard_acquire(u_int64_t* g) {
    if (!sim_on()) return __real___cxa_guard_acquire(g);
    point();
    u_int64_t a = reinterpret_cast<u_int64_t>(g);
    Lock* l = lock_of(g);
    for (;;) {
        if (*reinterpret_cast<volatile char*>(g)) {
            acquire(a);
            return 0;
        }
        if (l->owner < 0) break;
        block_on(a);
    }
    l->owner = s_cur;
    return 1;
}
void __wrap___cxa_guard_release(u_int64_t* g) {
    if (!sim_on()) return __real___cxa_guard_release(g);
    u_int64_t a = reinterpret_cast<u_int64_t>(g);
    *reinterpret_cast<volatile char*>(g) = 1;
    lock_of(g)->owner = -1;
    release(a, false);
    wake_all(a);
    point();
}
void __wrap___cxa_guard_abort(u_int64_t* g) {
    if (!sim_on()) return __real___cxa_guard_abort(g);
    lock_of(g)->owner = -1;
    wake_all(reinterpret_cast<u_int64_t>(g));
}

// ------------------------------------------------------------------ -fsanitize=thread instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                        \
    void __tsan_read##N(void* p) { access(p, N, kRead); }                            \
    void __tsan_write##N(void* p) { access(p, N, kWrite); }                          \
    void __tsan_unaligned_read##N(void* p) { access(p, N, kRead); }                  \
    void __tsan_unaligned_write##N(void* p) { access(p, N, kWrite); }                \
    void __tsan_read_write##N(void* p) {                                             \
        access(p, N, kRead);                                                         \
        access(p, N, kWrite);                                                        \
    }                                                                                \
    void __tsan_unaligned_read_write##N(void* p) { __tsan_read_write##N(p); }        \
    void __tsan_volatile_read##N(void* p) { access(p, N, kRead); }                   \
    void __tsan_volatile_write##N(void* p) { access(p, N, kWrite); }                 \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, kRead); }         \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, kWrite); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_vptr_read(void** p) { access(p, 8, kRead); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) access(p, 8, kWrite);
}
void __tsan_read_range(void* p, unsigned long n) { access(p, n, kRead); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, kWrite); }
// a block operation can be interrupted in the middle: the accesses are recorded in two halves
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
    access(s, n, kRead);
    access(d, n, kWrite);
    if (n > 1 && on()) {
        unsigned long h = n / 2;
        memmove(d, s, h);
        point();
        memmove(static_cast<char*>(d) + h, static_cast<const char*>(s) + h, n - h);
        return d;
    }
    return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
    access(s, n, kRead);
    access(d, n, kWrite);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, unsigned long n) {
    access(d, n, kWrite);
    return memset(d, v, n);
}
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    access(a, n, kRead);
    access(b, n, kRead);
    return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, size_t n) { return __wrap_memcmp(a, b, n); }
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    access(s, n + 1, kRead);
    return n;
}
void* __real_memchr(const void*, int, size_t);
void* __wrap_memchr(const void* s, int c, size_t n) {
    void* r = __real_memchr(s, c, n);
    access(s, r ? size_t(static_cast<char*>(r) - static_cast<const char*>(s)) + 1 : n, kRead);
    return r;
}

enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static inline bool acq(int m) { return m == mo_consume || m == mo_acquire || m == mo_acq_rel || m == mo_seq_cst; }
static inline bool rel(int m) { return m == mo_release || m == mo_acq_rel || m == mo_seq_cst; }
#define A64(p) reinterpret_cast<u_int64_t>(p)
#define RMW(N, TY, NAME, EXPR)                                        \
    TY __tsan_atomic##N##_##NAME(volatile TY* p, TY v, int mo) {      \
        if (!on()) return __atomic_##NAME(p, v, __ATOMIC_SEQ_CST);    \
        access(const_cast<TY*>(p), N / 8, kAWrite);                   \
        if (acq(mo)) acquire(A64(p));                                 \
        TY o = *p;                                                    \
        *p = (EXPR);                                                  \
        if (rel(mo)) release(A64(p), false);                          \
        return o;                                                     \
    }
#define ATOM(N, TY)                                                                                         \
    TY __tsan_atomic##N##_load(const volatile TY* p, int mo) {                                              \
        if (!on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                             \
        access(const_cast<TY*>(p), N / 8, kARead);                                                          \
        if (acq(mo)) acquire(A64(p));                                                                       \
        return *p;                                                                                          \
    }                                                                                                       \
    void __tsan_atomic##N##_store(volatile TY* p, TY v, int mo) {                                           \
        if (!on()) return __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                         \
        access(const_cast<TY*>(p), N / 8, kAWrite);                                                         \
        if (rel(mo)) release(A64(p), true);                                                                 \
        *p = v;                                                                                             \
    }                                                                                                       \
    TY __tsan_atomic##N##_exchange(volatile TY* p, TY v, int mo) {                                          \
        if (!on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                      \
        access(const_cast<TY*>(p), N / 8, kAWrite);                                                         \
        if (acq(mo)) acquire(A64(p));                                                                       \
        TY o = *p;                                                                                          \
        *p = v;                                                                                             \
        if (rel(mo)) release(A64(p), false);                                                                \
        return o;                                                                                           \
    }                                                                                                       \
    RMW(N, TY, fetch_add, TY(o + v))                                                                        \
    RMW(N, TY, fetch_sub, TY(o - v))                                                                        \
    RMW(N, TY, fetch_and, TY(o & v))                                                                        \
    RMW(N, TY, fetch_or, TY(o | v))                                                                         \
    RMW(N, TY, fetch_xor, TY(o ^ v))                                                                        \
    RMW(N, TY, fetch_nand, TY(~(o & v)))                                                                    \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY* p, TY* c, TY v, int mo, int fmo) {          \
        if (!on()) return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);  \
        access(const_cast<TY*>(p), N / 8, kAWrite);                                                         \
        if (*p == *c) {                                                                                     \
            if (acq(mo)) acquire(A64(p));                                                                   \
            *p = v;                                                                                         \
            if (rel(mo)) release(A64(p), false);                                                            \
            return 1;                                                                                       \
        }                                                                                                   \
        if (acq(fmo)) acquire(A64(p));                                                                      \
        *c = *p;                                                                                            \
        return 0;                                                                                           \
    }                                                                                                       \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY* p, TY* c, TY v, int mo, int fmo) {            \
        return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo);                                \
    }                                                                                                       \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY* p, TY c, TY v, int mo, int fmo) {               \
        TY e = c;                                                                                           \
        __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);                                      \
        return e;                                                                                           \
    }
ATOM(8, u_int8_t)
ATOM(16, u_int16_t)
ATOM(32, u_int32_t)
ATOM(64, u_int64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    if (acq(mo)) acquire(8);
    if (rel(mo)) release(8, false);
}
void __tsan_atomic_signal_fence(int) {}
}
