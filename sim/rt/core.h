// Internal interface between the parts of the simulator runtime.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include "sim.h"
#include <pthread.h>
#include <sys/types.h>

namespace sim
{
constexpr uintptr_t HEAP_BASE = 0x100000000000ull;
constexpr uintptr_t HEAP_SIZE = 4ull << 30;
constexpr uintptr_t STACK_BASE = HEAP_BASE + HEAP_SIZE;
constexpr uintptr_t STACK_SLOT = 16ull << 20;
constexpr uintptr_t STACK_USE = 8ull << 20;
constexpr int MAXT = 64;
constexpr uintptr_t STACK_END = STACK_BASE + STACK_SLOT * MAXT;
constexpr uintptr_t IMG_LO = 0x400000, IMG_HI = 0x8000000; // the (non-PIE) executable's own data
constexpr uintptr_t HOST_BASE = 0x300000000000ull;
constexpr uintptr_t HOST_SIZE = 8ull << 30;
constexpr uintptr_t SHADOW_BASE = 0x200000000000ull;
constexpr uintptr_t SYNCIDX_BASE = 0x280000000000ull;
constexpr uintptr_t NGRAN = (STACK_END - HEAP_BASE + (IMG_HI - IMG_LO)) / 8;

struct VC
{
    uint32_t c[MAXT];
};

enum State : uint8_t { UNUSED, RUNNABLE, BLOCKED, FINISHED };

struct Thread
{
    int id;
    State state;
    bool detached, joined, timed, timed_out, yielded;
    int go; // futex word
    const void* wait_obj;
    const char* wait_kind;
    uint64_t wait_seq;
    uint64_t deadline;
    uint64_t stalled_until;
    long long prio;
    pthread_t real;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    VC vc;
    uint32_t depth; // shadow call stack
    uintptr_t stack[256];
};

extern __thread Thread* cur;
extern __thread int host_depth;
extern __thread bool thread_exiting;

struct G
{
    bool active; // a simulated run is in progress
    bool hb; // track happens-before and report races
    bool alloc_perturb;
    uint8_t fill;
    long long acc_cd; // accesses until the next access-level decision
    long long acc_base; // acc_nr = acc_base - acc_cd
    uint64_t ev;
    uint64_t max_ev, max_acc;
    int live; // simulated threads not finished
    uint64_t tick; // ns that pass with every scheduling event
    uint64_t mono, wall_off; // simulated clock (ns) and wall-clock offset
    uint64_t hash, shash;
    uint64_t switches;
    uintptr_t watch; // dump accesses to this granule
    uint32_t* trace; // debugging: the program counter of every access
    uint64_t trace_n, trace_stop;
    int ncpu;
    int par_degree;
};
extern G g;

inline Thread& thr(int i);
extern Thread threads[MAXT];

// scheduling
void point(const char* kind);
void block_on(const void* obj, const char* kind, bool timed = false, uint64_t deadline = 0);
int wake(const void* obj, int n);
uint64_t decide(uint64_t n, const char* what); // seeded choice, recorded; default 0
void access_preempt();
void hash_ev(uint64_t a, uint64_t b);

// happens-before
void hb_acquire(const void* obj);
void hb_release(const void* obj);
void hb_release_set(const void* obj); // plain release store: replaces
void hb_fork(Thread* parent, Thread* child);
void hb_join(Thread* parent, Thread* child);
void hb_on_alloc(uintptr_t p, size_t n, size_t cls);
void hb_on_free(uintptr_t p, size_t n);
void hb_init();
int hb_races();

// allocator
void* host_alloc(size_t n);
void alloc_seed(uint64_t seed);
void heap_counts(uint64_t& n, uint64_t& bytes);

// faults
bool fault_enabled(Fault k);

// results
void out(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void end_run(const char* outcome, int rc);
void symbol(uintptr_t pc, char* buf, size_t n);
void print_stack(const char* key, Thread* t);

extern "C" long raw_syscall(long nr, ...);
} // namespace sim
#endif
