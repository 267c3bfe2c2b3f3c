#include "blockheap.hpp"

#include <sys/mman.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(reinterpret_cast<void*>(p), n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(reinterpret_cast<void*>(p), n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif

namespace sim::blk {
constexpr u64 kBase = 0x200000000000ULL;
constexpr u64 kSize = 256ULL << 20;
constexpr u64 kMaxBlock = 8ULL << 20;
static std::vector<Blk> s_blks;
static u64 s_bump, s_used_max, s_seed, s_calls, s_failures, s_live_bytes, s_live;
static i64 s_place, s_align16, s_at = -1, s_len = 0, s_cap = -1;
static bool s_outage = false;
static int s_owner = -1;
static bool s_mapped = false;

void begin_run(u64 seed, i64 placement, i64 align16) {
    Harness h;
    if (!s_mapped) {
        void* p = mmap(reinterpret_cast<void*>(kBase), kSize, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void*>(kBase)) {
            perror("block heap mmap");
            _exit(3);
        }
        s_mapped = true;
        s_used_max = kBase;
    }
    if (s_used_max > kBase) POISON(kBase, s_used_max - kBase + 4096);
    s_used_max = kBase;
    s_blks.clear();
    s_bump = kBase + 4096;
    s_seed = seed;
    s_place = placement;
    s_align16 = align16;
    s_calls = s_failures = s_live_bytes = s_live = 0;
    heal();
}
void heal() {
    s_at = -1;
    s_len = 0;
    s_cap = -1;
    s_outage = false;
}
void plan(i64 k, i64 len) {
    s_at = i64(s_calls) + k;
    s_len = len;
}
void outage(bool on) { s_outage = on; }
void cap(i64 bytes) { s_cap = bytes; }
u64 live_blocks() { return s_live; }
u64 live_bytes() { return s_live_bytes; }
u64 calls() { return s_calls; }
u64 failures() { return s_failures; }
void set_owner(int id) { s_owner = id; }
const std::vector<Blk>& all() { return s_blks; }

static void fill(u64 a, u64 n, u64 seed) {
    u8* p = reinterpret_cast<u8*>(a);
    u64 m = n > 32768 ? 32768 : n;
    u64 x = mix64(seed) | 0x0101010101010101ULL;
    for (u64 i = 0; i + 8 <= m; i += 8) memcpy(p + i, &x, 8);
    if (n > m)
        for (u64 i = n - 4096; i + 8 <= n; i += 8) memcpy(p + i, &x, 8);
}

void* alloc(std::size_t n, int kind) {
    Harness h;
    u64 k = s_calls++;
    const char* why = nullptr;
    if (s_outage) why = "fault.block.outage";
    if (s_at >= 0 && i64(k) >= s_at && i64(k) < s_at + s_len) why = "fault.block.kth";
    if (s_cap >= 0 && (n > u64(s_cap) || s_live_bytes + n > u64(s_cap))) why = "fault.block.capacity";
    if (n > kMaxBlock) why = "fault.block.too_large";
    if (n == 0) why = "fault.block.zero";
    u64 r = mix2(s_seed, k);
    if (!why && s_bump + n + 65536 > kBase + kSize) why = "fault.block.region_full";
    if (why) {
        count(why);
        interesting();
        ++s_failures;
        ev(0xB10C0000 + n);
        logf("    block_alloc(%zu) -> null (%s)\n", n, why);
        return nullptr;
    }
    u64 al = s_align16 ? 16 : 8;
    u64 addr = 0;
    if ((s_place & 1) && (r & 3) != 0) {  // reuse a hole
        for (auto it = s_blks.rbegin(); it != s_blks.rend() && !addr; ++it) {
            if (it->live || it->size < n) continue;
            u64 a = it->addr;
            if (a % al) continue;
            bool clash = false;
            for (auto& b : s_blks)
                if (b.live && b.addr < a + n && a < b.addr + b.size) clash = true;
            if (!clash) {
                addr = a;
                count("place.reused_hole");
            }
        }
    }
    if (!addr) {
        u64 gap = 0;
        switch ((r >> 8) % 6) {
            case 0:
            case 1: gap = 0; count("place.adjacent"); break;
            case 2: gap = 8 + 8 * ((r >> 16) % 4); break;
            case 3: gap = 64; break;
            case 4: gap = 8 * ((r >> 16) % 64); break;
            default: gap = 4096; break;
        }
        if (!(s_place & 2) && gap == 0) gap = 32;
        addr = (s_bump + gap + al - 1) / al * al;
        s_bump = addr + (n + 7) / 8 * 8;
    }
    if (addr + n > s_used_max) s_used_max = addr + n;
    UNPOISON(addr, n);
    fill(addr, n, r);
    s_blks.push_back(Blk{addr, n, kind, s_owner, true, k});
    s_live_bytes += n;
    ++s_live;
    ev(0xA110C000 + n);
    count("block.obtained");
    logf("    block_alloc(%zu) -> block #%llu at %+lld\n", n, (unsigned long long)k, (long long)(addr - kBase));
    return reinterpret_cast<void*>(addr);
}
Blk* release(void* p, int kind, const char** err) {
    Harness h;
    u64 a = reinterpret_cast<u64>(p);
    Blk* dead = nullptr;
    for (auto it = s_blks.rbegin(); it != s_blks.rend(); ++it) {
        if (it->addr != a) continue;
        if (it->live) {
            if (it->kind != kind) {
                *err = "released through a deallocation function that does not belong to its allocation function";
                return nullptr;
            }
            it->live = false;
            --s_live;
            s_live_bytes -= it->size;
            fill(it->addr, it->size, 0xDBDBDBDB);
            POISON(it->addr, it->size);
            ev(0xF3EE0000 + it->size);
            logf("    block_dealloc(block #%llu)\n", (unsigned long long)it->id);
            return &*it;
        }
        dead = &*it;
    }
    *err = dead ? "block given back twice" : "pointer given back was never obtained from block_alloc";
    return nullptr;
}
Blk* find(u64 addr) {
    for (auto& b : s_blks)
        if (b.live && addr >= b.addr && addr < b.addr + b.size) return &b;
    return nullptr;
}
bool live_range(u64 addr, u64 n) {
    for (auto& b : s_blks)
        if (b.live && addr >= b.addr && addr + n <= b.addr + b.size && addr + n >= addr) return true;
    return false;
}
}  // namespace sim::blk
