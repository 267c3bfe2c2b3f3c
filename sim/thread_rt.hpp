// Runtime of the thread simulator: real threads, exactly one of them running at any time, seeded preemption at every
// instrumented memory access, vector-clock race detection, simulated locks, a heap that never reuses memory.
#pragma once
#include "core.hpp"

namespace sim::thr {
constexpr int kMax = 4;

struct Preempt
{
    u32 at;      // scheduling point within the operation
    int to;      // thread that goes on
    u32 quota;   // operations it may complete before the trace order rules again
    u32 period;  // >0: again after so many points
};

void begin(int nthreads, u64 seed);
// body(t) is executed by a real thread; it calls op_begin/op_end around its operations
void run(void (*body)(int));
int self();
void op_begin(u32 pos, const Preempt* p, int np);  // pos: position in the trace
void op_end();
void no_more_ops();
bool pending(int t);

// harness-level synchronisation (a mailbox): happens-before without a scheduling point
void hb_release(int channel);
void hb_acquire(int channel);

struct Cut  // code under test runs
{
    Cut();
    ~Cut();
};
struct Pause  // harness code called back from the code under test
{
    int saved;
    Pause();
    ~Pause();
};
void oom(i64 k, i64 len);  // allocations of the current thread's code under test fail from the k-th on (k<0: none)
u64 oom_fired();
void* block_alloc(std::size_t n);
void block_free(void* p);
u64 now_ns();
void advance(u64 ns);
u64 points();      // scheduling points of the run
u64 switches();    // preemptions that really switched
u64 sched_hash();
bool overlapped(); // two threads were inside operations at the same time
}  // namespace sim::thr
