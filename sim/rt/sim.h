// The simulator's interface to workloads: specification of a run, random streams, faults, probes and results.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>

namespace sim
{
// ---- fault kinds ----
enum Fault
{
    F_SPURIOUS, // a condition-variable wait returns without a notification
    F_OPEN_FAIL,
    F_READ_EIO,
    F_READ_SHORT,
    F_READ_EINTR,
    F_WRITE_ENOSPC,
    F_WRITE_EIO,
    F_WRITE_SHORT,
    F_WRITE_EINTR,
    F_CLOSE_EIO,
    F_SEEK_FAIL,
    F_ALLOC_FAIL,
    F_THREAD_FAIL,
    F_CLOCK_JUMP, // the wall clock and/or the monotonic clock leaps
    F_STALL, // a thread is not scheduled for a while
    F_KILL, // the process dies at an I/O operation
    F_NET_DELAY,
    F_NET_REFUSE,
    F_NET_DROP, // connection lost
    F_NET_GARBAGE, // an unexpected message arrives
    F_SPURIOUS_CAS, // compare_exchange_weak fails spuriously
    F_N
};
extern const char* const fault_name[F_N];

// xorshift-style generator with splitmix seeding
struct Rng
{
    uint64_t s = 1;
    void seed(uint64_t v) { s = v * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---- specification (parsed from key=value lines; kept in host memory) ----
const char* spec_str(const char* key, const char* dflt = "");
long long spec_int(const char* key, long long dflt = 0);
double spec_dbl(const char* key, double dflt = 0);
size_t spec_count(const char* key);
const char* spec_nth(const char* key, size_t i);

// ---- used by workloads and stand-ins running under the simulator ----
uint64_t fault(Fault kind, uint64_t arg_range); // 0: no fault here; otherwise 1..arg_range
Rng& work_rng(); // workload-generation stream
void probe(const char* name, uint64_t n = 1); // "this was reached" counters
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // goes to the result file, and into the hash
void log_hash(uint64_t v); // adds to the run's event hash
void violation(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // an invariant failed: recorded, the run ends
[[noreturn]] void finish(int rc); // end of the run
void yield_point(); // a plain scheduling point
void block_until(bool (*cond)(void*), void* arg, uint64_t timeout_ns = ~0ull); // polls cond whenever scheduled
uint64_t now_ns(); // simulated monotonic clock
int self(); // id of the running simulated thread
uint64_t event_nr();
bool in_sim();
struct HostScope // allocations inside go to the simulator's own arena and no scheduling happens
{
    HostScope();
    ~HostScope();
    HostScope(const HostScope&) = delete;
};
int live_threads();
typedef int (*WorkloadFn)();
void register_workload(const char* name, WorkloadFn fn);
#define SIM_WORKLOAD(name) \
    static int wl_##name(); \
    static const bool wl_reg_##name = (sim::register_workload(#name, wl_##name), true); \
    static int wl_##name()
} // namespace sim
#endif
