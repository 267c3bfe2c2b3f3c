// Simulated block allocator behind Arena::Options::block_alloc/block_dealloc.
#pragma once
#include <map>
#include <vector>

#include "core.hpp"

namespace sim::blk {
struct Blk
{
    u64 addr, size;
    int kind;   // which alloc/dealloc pair
    int owner;  // id given by the world while the call was made
    bool live;
    u64 id;
};
enum class Why { kNone, kPlan, kOutage, kCap, kHuge };
void begin_run(u64 seed, i64 placement, i64 align16);
void* alloc(std::size_t n, int kind);
// returns nullptr when p is not a live block obtained through the same pair (kind); err says why
Blk* release(void* p, int kind, const char** err);
Blk* find(u64 addr);                       // live block containing addr
bool live_range(u64 addr, u64 n);          // completely inside one live block
void plan(i64 k, i64 len);
void outage(bool on);
void cap(i64 bytes);
void heal();
u64 live_blocks();
u64 calls();
u64 failures();     // failed calls so far in this run
void set_owner(int id);
const std::vector<Blk>& all();
u64 live_bytes();
}  // namespace sim::blk
