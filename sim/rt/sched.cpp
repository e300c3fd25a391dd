// Threads, locks, condition variables, time and the seeded scheduler. Real threads, released one at a time.
#include "core.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
__thread Thread* cur = nullptr;
__thread int host_depth = 0;
__thread bool thread_exiting = false;
Thread threads[MAXT];
G g;

// ---- schedule state ----
namespace
{
enum Mode { M_RANDOM, M_PCT, M_RR, M_REPLAY, M_SEQ };
struct Sched
{
    Mode mode;
    Rng rng;
    double p_sync; // switch probability at a synchronisation point
    long long quantum; // mean number of accesses between access-level preemptions (0: never)
    double p_timed; // weight of letting a timed wait expire while others could run
    double p_stall;
    uint64_t stall_len;
    // recorded / replayed decisions
    struct Dev { uint64_t at; uint32_t val; };
    Dev* dev;
    size_t ndev, capdev, idev;
    Dev* adev;
    size_t nadev, capadev, iadev;
    long long next_cp; // PCT: next change point (event number)
    long long low_prio;
    long long pct_span;
    uint64_t since_switch;
} S;

void record(Sched::Dev*& a, size_t& n, size_t& cap, uint64_t at, uint32_t val)
{
    if (S.mode == M_REPLAY) return;
    if (n == cap)
    {
        const size_t nc = cap ? cap * 2 : 256;
        Sched::Dev* b = static_cast<Sched::Dev*>(host_alloc(nc * sizeof(Sched::Dev)));
        if (n) memcpy(b, a, n * sizeof(Sched::Dev));
        a = b;
        cap = nc;
    }
    a[n++] = { at, val };
}

long long futex(int* a, int op, int v) { return raw_syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }

void park(Thread* t)
{
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex(&t->go, FUTEX_WAIT, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
}
void release(Thread* t)
{
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    futex(&t->go, FUTEX_WAKE, 1);
}

int candidates(Thread** out, bool timed_too)
{
    int n = 0;
    for (int i = 0; i < MAXT; ++i)
    {
        Thread& t = threads[i];
        if (t.state == RUNNABLE || (timed_too && t.state == BLOCKED && t.timed)) out[n++] = &t;
    }
    return n;
}

void expire(Thread* t)
{
    if (t->deadline > g.mono) g.mono = t->deadline;
    t->state = RUNNABLE;
    t->timed = false;
    t->timed_out = true;
}

Thread* default_next(Thread* from)
{
    for (int k = 1; k <= MAXT; ++k)
    {
        Thread& t = threads[(from->id + k) % MAXT];
        if (t.state == RUNNABLE && &t != from) return &t;
    }
    return nullptr;
}

// After a switch-less stretch this long somebody else must run: spin loops make progress under every policy.
constexpr uint64_t FAIR = 3000;

[[noreturn]] void deadlock()
{
    for (int i = 0; i < MAXT; ++i)
        if (threads[i].state == BLOCKED)
        {
            out("blocked=thread %d in %s\n", i, threads[i].wait_kind ? threads[i].wait_kind : "?");
            char key[32];
            snprintf(key, sizeof(key), "blocked_stack_%d", i);
            print_stack(key, &threads[i]);
        }
    end_run("deadlock", 0);
}

// Choose who runs now. `from` is the current thread; it may be blocked or finished.
Thread* choose(Thread* from, bool is_yield, bool access)
{
    Thread* c[MAXT];
    int n = candidates(c, false);
    if (n == 0)
    {
        // nothing can run: time passes until the first deadline
        Thread* best = nullptr;
        for (int i = 0; i < MAXT; ++i)
        {
            Thread& t = threads[i];
            if (t.state == BLOCKED && t.timed && (best == nullptr || t.deadline < best->deadline)) best = &t;
        }
        if (best == nullptr) deadlock();
        expire(best);
        return best;
    }
    // deadlines that have passed
    for (int i = 0; i < MAXT; ++i)
        if (threads[i].state == BLOCKED && threads[i].timed && threads[i].deadline <= g.mono) expire(&threads[i]);
    n = candidates(c, false);
    const bool can_stay = from->state == RUNNABLE;
    Thread* dflt = can_stay && ! is_yield && S.since_switch < FAIR ? from : default_next(from);
    if (dflt == nullptr) dflt = from;
    if (access) dflt = from;
    if (n == 1 && c[0] == from) return from;
    Thread* pick = dflt;
    switch (S.mode)
    {
    case M_SEQ:
        break;
    case M_REPLAY:
    {
        Sched::Dev* d = access ? S.adev : S.dev;
        size_t& i = access ? S.iadev : S.idev;
        const size_t nd = access ? S.nadev : S.ndev;
        const uint64_t at = access ? static_cast<uint64_t>(g.acc_base - g.acc_cd) : g.ev;
        while (i < nd && d[i].at < at) ++i;
        if (i < nd && d[i].at == at)
        {
            Thread& t = threads[d[i].val % MAXT];
            ++i;
            if (t.state == RUNNABLE) pick = &t;
            else if (t.state == BLOCKED && t.timed) { expire(&t); pick = &t; }
        }
        break;
    }
    case M_RR:
        if (! access || S.rng.below(4) == 0) { pick = default_next(from); if (! pick) pick = from; }
        break;
    case M_PCT:
    {
        if (can_stay && (static_cast<long long>(g.ev) >= S.next_cp || is_yield || S.since_switch >= FAIR))
        {
            from->prio = --S.low_prio;
            if (static_cast<long long>(g.ev) >= S.next_cp) S.next_cp = static_cast<long long>(g.ev) + 1 + static_cast<long long>(S.rng.below(static_cast<uint64_t>(S.pct_span)));
        }
        if (access) from->prio = --S.low_prio;
        pick = c[0];
        for (int i = 1; i < n; ++i)
            if (c[i]->prio > pick->prio) pick = c[i];
        break;
    }
    case M_RANDOM:
    {
        bool sw = ! can_stay || is_yield || access || S.since_switch >= FAIR;
        if (! sw) sw = S.rng.unit() < S.p_sync;
        if (sw)
        {
            Thread* o[MAXT];
            int m = 0;
            for (int i = 0; i < n; ++i)
                if ((c[i] != from || n == 1) && c[i]->stalled_until <= g.ev) o[m++] = c[i];
            if (m == 0)
                for (int i = 0; i < n; ++i)
                    if (c[i] != from || n == 1) o[m++] = c[i];
            pick = o[S.rng.below(static_cast<uint64_t>(m))];
            if (S.p_timed > 0 && S.rng.unit() < S.p_timed)
            {
                int k = 0;
                for (int i = 0; i < MAXT; ++i)
                    if (threads[i].state == BLOCKED && threads[i].timed) o[k++] = &threads[i];
                if (k > 0)
                {
                    pick = o[S.rng.below(static_cast<uint64_t>(k))];
                    expire(pick);
                }
            }
            if (S.p_stall > 0 && S.rng.unit() < S.p_stall)
            {
                Thread* v = c[S.rng.below(static_cast<uint64_t>(n))];
                v->stalled_until = g.ev + 1 + S.rng.below(S.stall_len);
                probe("stall");
            }
        }
        break;
    }
    }
    if (pick != dflt)
    {
        if (access) record(S.adev, S.nadev, S.capadev, static_cast<uint64_t>(g.acc_base - g.acc_cd), static_cast<uint32_t>(pick->id));
        else record(S.dev, S.ndev, S.capdev, g.ev, static_cast<uint32_t>(pick->id));
    }
    return pick;
}

void switch_to(Thread* from, Thread* to)
{
    if (from == to) return;
    S.since_switch = 0;
    g.switches++;
    g.shash = (g.shash ^ static_cast<uint64_t>(to->id)) * 0x100000001B3ull;
    hash_ev(0x5157, static_cast<uint64_t>(to->id));
    release(to);
    if (from->state != FINISHED) park(from);
}

void next_quantum()
{
    // accesses until the next access-level decision
    g.acc_base = g.acc_base - g.acc_cd; // accesses so far
    long long n;
    if (S.mode == M_REPLAY)
    {
        while (S.iadev < S.nadev && static_cast<long long>(S.adev[S.iadev].at) <= g.acc_base) ++S.iadev;
        n = S.iadev < S.nadev ? static_cast<long long>(S.adev[S.iadev].at) - g.acc_base : LLONG_MAX / 4;
    }
    else if (S.quantum <= 0 || S.mode == M_SEQ) n = LLONG_MAX / 4;
    else
    {
        // mixture: mostly around the mean, sometimes very short to hit adjacent accesses
        const uint64_t k = S.rng.below(8);
        if (k == 0) n = 1 + static_cast<long long>(S.rng.below(8));
        else n = 1 + static_cast<long long>(S.rng.below(static_cast<uint64_t>(S.quantum) * 2));
    }
    const long long left = static_cast<long long>(g.max_acc) - g.acc_base;
    if (left <= 0) { out("limit=accesses\n"); end_run("livelock", 0); }
    if (n > left) n = left;
    g.acc_base += n;
    g.acc_cd = n;
}

void schedule(bool is_yield)
{
    Thread* me = cur;
    ++g.ev;
    ++S.since_switch;
    g.mono += g.tick;
    if (g.ev > g.max_ev)
    {
        for (int i = 0; i < MAXT; ++i)
            if (threads[i].state == RUNNABLE || threads[i].state == BLOCKED)
            {
                out("alive=thread %d %s %s\n", i, threads[i].state == RUNNABLE ? "runnable" : "blocked in", threads[i].state == BLOCKED && threads[i].wait_kind ? threads[i].wait_kind : "");
                char key[32];
                snprintf(key, sizeof(key), "alive_stack_%d", i);
                print_stack(key, &threads[i]);
            }
        out("limit=events\n");
        end_run("livelock", 0);
    }
    switch_to(me, choose(me, is_yield, false));
}

uint64_t seq_counter = 0;
} // namespace

void sched_setup()
{
    memset(&S, 0, sizeof(S));
    const char* m = spec_str("sched", "seq");
    S.mode = ! strcmp(m, "random") ? M_RANDOM : ! strcmp(m, "pct") ? M_PCT : ! strcmp(m, "rr") ? M_RR : ! strcmp(m, "replay") ? M_REPLAY : M_SEQ;
    S.rng.seed(static_cast<uint64_t>(spec_int("sched_seed", 1)));
    S.p_sync = spec_dbl("p_sync", 0.1);
    S.quantum = spec_int("quantum", 0);
    S.p_timed = spec_dbl("p_timed", 0.01);
    S.p_stall = spec_dbl("p_stall", 0);
    S.stall_len = static_cast<uint64_t>(spec_int("stall_len", 2000));
    S.pct_span = spec_int("pct_span", 500);
    S.next_cp = 1 + static_cast<long long>(S.rng.below(static_cast<uint64_t>(S.pct_span)));
    if (S.mode == M_REPLAY)
    {
        for (int w = 0; w < 2; ++w)
        {
            // devs=at:val,at:val,... (several lines allowed, ascending)
            const char* key = w ? "adevs" : "devs";
            size_t cap = 0, n = 0;
            Sched::Dev* a = nullptr;
            for (size_t i = 0; i < spec_count(key); ++i)
            {
                const char* s = spec_nth(key, i);
                while (*s)
                {
                    char* e;
                    const uint64_t at = strtoull(s, &e, 10);
                    if (*e != ':') break;
                    const uint32_t v = static_cast<uint32_t>(strtoul(e + 1, &e, 10));
                    if (n == cap)
                    {
                        const size_t nc = cap ? cap * 2 : 256;
                        Sched::Dev* b = static_cast<Sched::Dev*>(host_alloc(nc * sizeof(Sched::Dev)));
                        if (n) memcpy(b, a, n * sizeof(Sched::Dev));
                        a = b;
                        cap = nc;
                    }
                    a[n++] = { at, v };
                    s = *e == ',' ? e + 1 : e;
                    if (*e == 0) break;
                }
            }
            if (w) { S.adev = a; S.nadev = n; }
            else { S.dev = a; S.ndev = n; }
        }
    }
    g.acc_cd = 0;
    g.acc_base = 0;
    next_quantum();
}

void sched_report()
{
    for (int w = 0; w < 2; ++w)
    {
        Sched::Dev* d = w ? S.adev : S.dev;
        const size_t n = w ? S.nadev : S.ndev;
        for (size_t i = 0; i < n;)
        {
            char line[4000];
            int k = snprintf(line, sizeof(line), "%s=", w ? "adevs" : "devs");
            for (; i < n && k < 3900; ++i) k += snprintf(line + k, sizeof(line) - static_cast<size_t>(k), "%llu:%u,", static_cast<unsigned long long>(d[i].at), d[i].val);
            out("%s\n", line);
        }
    }
}

void hash_ev(uint64_t a, uint64_t b)
{
    g.hash = (g.hash ^ a) * 0x100000001B3ull;
    g.hash = (g.hash ^ b) * 0x100000001B3ull;
    g.hash ^= g.hash >> 29;
}

static bool simulated() { return g.active && cur != nullptr && host_depth == 0; }
bool in_sim() { return simulated(); }

void point(const char* kind)
{
    if (! simulated()) return;
    hash_ev(static_cast<uint64_t>(cur->id), static_cast<uint64_t>(kind[0]) << 8 | static_cast<uint64_t>(kind[1]));
    schedule(false);
}

void yield_point()
{
    if (! simulated()) return;
    hash_ev(static_cast<uint64_t>(cur->id), 0x11);
    schedule(true);
}

void access_preempt()
{
    if (! simulated()) { g.acc_cd += 1; return; }
    g.mono += 50;
    if (g.acc_cd > 0) return;
    Thread* me = cur;
    Thread* n = choose(me, false, true);
    next_quantum();
    if (n != me)
    {
        hash_ev(0xACCE, static_cast<uint64_t>(g.acc_base - g.acc_cd));
        switch_to(me, n);
    }
}

uint64_t decide(uint64_t n, const char* what)
{
    (void)what;
    ++g.ev;
    if (n <= 1) return 0;
    uint64_t v = 0;
    if (S.mode == M_REPLAY)
    {
        while (S.idev < S.ndev && S.dev[S.idev].at < g.ev) ++S.idev;
        if (S.idev < S.ndev && S.dev[S.idev].at == g.ev) v = S.dev[S.idev++].val % n;
    }
    else if (S.mode != M_SEQ)
    {
        v = S.rng.below(n);
        if (v) record(S.dev, S.ndev, S.capdev, g.ev, static_cast<uint32_t>(v));
    }
    hash_ev(0xDEC1, v);
    return v;
}

void block_on(const void* obj, const char* kind, bool timed, uint64_t deadline)
{
    Thread* me = cur;
    me->state = BLOCKED;
    me->wait_obj = obj;
    me->wait_kind = kind;
    me->wait_seq = ++seq_counter;
    me->timed = timed;
    me->timed_out = false;
    me->deadline = deadline;
    hash_ev(static_cast<uint64_t>(me->id), 0xB10C);
    schedule(false);
    me->wait_obj = nullptr;
    me->timed = false;
}

int wake(const void* obj, int n)
{
    int woken = 0;
    while (woken < n)
    {
        Thread* w[MAXT];
        int m = 0;
        for (int i = 0; i < MAXT; ++i)
            if (threads[i].state == BLOCKED && threads[i].wait_obj == obj) w[m++] = &threads[i];
        if (m == 0) break;
        // in order of arrival, unless the schedule says otherwise
        for (int i = 1; i < m; ++i)
            for (int j = i; j > 0 && w[j]->wait_seq < w[j - 1]->wait_seq; --j) { Thread* t = w[j]; w[j] = w[j - 1]; w[j - 1] = t; }
        Thread* t = w[n >= m - woken || m == 1 ? 0 : decide(static_cast<uint64_t>(m), "wake")];
        t->state = RUNNABLE;
        t->wait_obj = nullptr;
        t->timed = false;
        ++woken;
    }
    return woken;
}

void block_until(bool (*cond)(void*), void* arg, uint64_t timeout_ns)
{
    const uint64_t dl = timeout_ns == ~0ull ? ~0ull : g.mono + timeout_ns;
    while (! cond(arg))
    {
        if (g.mono >= dl) return;
        Thread* me = cur;
        (void)me;
        // sleep in simulated time, a little at a time
        block_on(&g, "sleep", true, g.mono + 1000000);
    }
}

uint64_t now_ns() { return g.mono; }
int self() { return cur ? cur->id : -1; }
uint64_t event_nr() { return g.ev; }
int live_threads() { return g.live; }
HostScope::HostScope() { ++host_depth; }
HostScope::~HostScope() { --host_depth; }

// ---- real functions ----
namespace
{
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*join_t)(pthread_t, void**);
typedef int (*detach_t)(pthread_t);
create_t real_create;
join_t real_join;
detach_t real_detach;
pthread_key_t exit_key;

void ensure_real()
{
    if (real_create) return;
    ++host_depth;
    real_create = reinterpret_cast<create_t>(dlsym(RTLD_NEXT, "pthread_create"));
    real_join = reinterpret_cast<join_t>(dlsym(RTLD_NEXT, "pthread_join"));
    real_detach = reinterpret_cast<detach_t>(dlsym(RTLD_NEXT, "pthread_detach"));
    --host_depth;
}

void finish_thread(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    if (cur != t) return;
    hash_ev(static_cast<uint64_t>(t->id), 0xF1);
    hb_release(&t->joined);
    t->vc.c[t->id]++;
    t->state = FINISHED;
    g.live--;
    // whoever joins this thread can go on
    wake(t, INT_MAX);
    if (t->detached) t->joined = true;
    Thread* me = cur;
    ++g.ev;
    ++S.since_switch;
    Thread* n = choose(me, false, false);
    cur = nullptr;
    thread_exiting = true;
    S.since_switch = 0;
    g.switches++;
    g.shash = (g.shash ^ static_cast<uint64_t>(n->id)) * 0x100000001B3ull;
    release(n);
}

void* trampoline(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    park(t);
    cur = t;
    stack_t ss{};
    ss.ss_sp = host_alloc(65536);
    ss.ss_size = 65536;
    raw_syscall(SYS_sigaltstack, &ss, nullptr);
    pthread_setspecific(exit_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}

Thread* find_thread(pthread_t r)
{
    for (int i = 0; i < MAXT; ++i)
        if (threads[i].state != UNUSED && ! threads[i].joined && pthread_equal(threads[i].real, r)) return &threads[i];
    return nullptr;
}

Thread* new_thread(void* (*fn)(void*), void* arg)
{
    int slot = -1;
    for (int i = 0; i < MAXT; ++i)
        if (threads[i].state == UNUSED) { slot = i; break; }
    if (slot < 0)
        for (int i = 0; i < MAXT; ++i)
            if (threads[i].state == FINISHED && threads[i].joined && ! threads[i].detached) { slot = i; break; }
    if (slot < 0) return nullptr;
    Thread& t = threads[slot];
    const VC old = t.vc;
    memset(&t, 0, sizeof(t));
    t.vc.c[slot] = old.c[slot] + 1;
    t.id = slot;
    t.fn = fn;
    t.arg = arg;
    return &t;
}

bool start_thread(Thread* t)
{
    ensure_real();
    const uintptr_t base = STACK_BASE + STACK_SLOT * static_cast<uintptr_t>(t->id);
    ++host_depth;
    void* p = mmap(reinterpret_cast<void*>(base + STACK_SLOT - STACK_USE), STACK_USE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, p, STACK_USE);
    pthread_t r;
    const int rc = real_create(&r, &a, trampoline, t);
    pthread_attr_destroy(&a);
    --host_depth;
    if (rc != 0) return false;
    t->real = r;
    return true;
}
} // namespace

// Starts the simulated process: `fn` runs as simulated thread 0. The calling thread only waits.
void run_main(void* (*fn)(void*))
{
    ensure_real();
    pthread_key_create(&exit_key, finish_thread);
    Thread* t = new_thread(fn, nullptr);
    t->state = RUNNABLE;
    t->vc.c[t->id] = 1;
    g.live = 1;
    g.active = true;
    if (! start_thread(t)) raw_syscall(SYS_exit_group, 98);
    release(t);
    int never = 0;
    for (;;) futex(&never, FUTEX_WAIT, 0);
}
} // namespace sim

using namespace sim;

// ---- pthread interface ----
struct SimMutex // laid over pthread_mutex_t; kind is where glibc's static initialisers put it
{
    int owner; // thread id + 1
    int count;
    int unused[2];
    int kind;
};
struct SimRw // over pthread_rwlock_t
{
    int writer;
    int readers;
};

static int mutex_lock(pthread_mutex_t* pm, bool try_only, bool timed, uint64_t deadline)
{
    if (! simulated()) return 0;
    SimMutex* m = reinterpret_cast<SimMutex*>(pm);
    const int me = cur->id + 1;
    point("lock");
    if (m->owner == me)
    {
        if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
        if (try_only) return EBUSY;
        if ((m->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (m->owner != 0)
    {
        if (try_only) { hash_ev(0xB5, 1); return EBUSY; }
        block_on(m, "mutex lock", timed, deadline);
        if (timed && cur->timed_out && m->owner != 0) return ETIMEDOUT;
    }
    m->owner = me;
    m->count = 1;
    hb_acquire(m);
    return 0;
}

static void mutex_release(SimMutex* m)
{
    if (--m->count > 0) return;
    hb_release(m);
    m->owner = 0;
    wake(m, INT_MAX);
}

static uint64_t abs_to_mono(clockid_t clk, const struct timespec* ts)
{
    const uint64_t v = static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec);
    if (clk == CLOCK_REALTIME) return v > g.wall_off ? v - g.wall_off : 0;
    return v;
}

static const uint64_t COND_GONE[2] = { 0x6465737472ee01c5ull, 0x9e3779b97f4a7c15ull };

static void cond_alive(pthread_cond_t* c, const char* what)
{
    if (memcmp(static_cast<void*>(c), &COND_GONE, sizeof(COND_GONE)) == 0) violation("a condition variable was %s after it was destroyed", what);
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* pm, bool timed, uint64_t deadline)
{
    if (! simulated()) return 0;
    cond_alive(c, "waited on");
    SimMutex* m = reinterpret_cast<SimMutex*>(pm);
    const int me = cur->id + 1;
    if (m->owner != me)
    {
        violation("condition variable waited on without holding its mutex");
        return EPERM;
    }
    hash_ev(static_cast<uint64_t>(cur->id), 0xC0);
    const int count = m->count;
    m->count = 1;
    const uint64_t spurious = fault(F_SPURIOUS, 1);
    bool timeout = false;
    mutex_release(m);
    if (spurious)
        yield_point();
    else
    {
        block_on(c, timed ? "timed condition wait" : "condition wait", timed, deadline);
        timeout = cur->timed_out;
    }
    while (m->owner != 0) block_on(m, "mutex lock", false, 0);
    m->owner = me;
    m->count = count;
    hb_acquire(m);
    return timeout ? ETIMEDOUT : 0;
}

extern "C" {
int pthread_create(pthread_t* out_t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (! simulated())
    {
        static const char msg[] = "sim: a thread was created outside the simulation\n";
        raw_syscall(1, 2, msg, sizeof(msg) - 1);
        return EAGAIN;
    }
    point("create");
    if (fault(F_THREAD_FAIL, 1)) return EAGAIN;
    Thread* t = new_thread(fn, arg);
    if (t == nullptr) { probe("out_of_threads"); return EAGAIN; }
    hb_fork(cur, t);
    t->prio = 1000000 + static_cast<long long>(S.mode == M_PCT ? S.rng.below(1000000) : 0);
    if (! start_thread(t)) { t->state = UNUSED; return EAGAIN; }
    t->state = RUNNABLE;
    g.live++;
    probe("threads");
    *out_t = t->real;
    hash_ev(static_cast<uint64_t>(cur->id), 0xC4EA);
    point("created");
    return 0;
}
int pthread_join(pthread_t r, void** ret)
{
    if (! simulated()) return 0;
    point("join");
    Thread* t = find_thread(r);
    if (t == nullptr) return ESRCH;
    if (t == cur) return EDEADLK;
    while (t->state != FINISHED) block_on(t, "thread join");
    hb_acquire(&t->joined);
    if (ret) *ret = t->ret;
    ++host_depth;
    real_join(t->real, nullptr);
    --host_depth;
    t->joined = true;
    return 0;
}
int pthread_detach(pthread_t r)
{
    if (! simulated()) return 0;
    Thread* t = find_thread(r);
    if (t) t->detached = true;
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(static_cast<void*>(m), 0, sizeof(*m));
    int kind = 0;
    if (a) pthread_mutexattr_gettype(a, &kind);
    reinterpret_cast<SimMutex*>(m)->kind = kind;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* pm)
{
    if (simulated() && reinterpret_cast<SimMutex*>(pm)->owner != 0) probe("destroyed_locked_mutex");
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock(m, false, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutex_lock(m, true, false, 0); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mutex_lock(m, false, true, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mutex_lock(m, false, true, abs_to_mono(c, ts)); }
int pthread_mutex_unlock(pthread_mutex_t* pm)
{
    if (! simulated()) return 0;
    SimMutex* m = reinterpret_cast<SimMutex*>(pm);
    if (m->owner != cur->id + 1)
    {
        violation("a mutex was unlocked by a thread that does not hold it");
        return EPERM;
    }
    mutex_release(m);
    point("unlock");
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(static_cast<void*>(c), 0, sizeof(*c));
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (simulated())
        for (int i = 0; i < MAXT; ++i)
            if (threads[i].state == BLOCKED && threads[i].wait_obj == c) violation("a condition variable was destroyed while thread %d waits on it", i);
    // Any later object in this place is initialised, which takes the mark away
    memcpy(static_cast<void*>(c), &COND_GONE, sizeof(COND_GONE));
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, true, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) { return cond_wait(c, m, true, abs_to_mono(clk, ts)); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (! simulated()) return 0;
    point("signal");
    cond_alive(c, "signalled");
    wake(c, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (! simulated()) return 0;
    point("broadcast");
    cond_alive(c, "signalled");
    wake(c, INT_MAX);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(static_cast<void*>(l), 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p)
{
    if (! simulated()) return 0;
    SimRw* l = reinterpret_cast<SimRw*>(p);
    point("rdlock");
    if (l->writer == cur->id + 1) return EDEADLK;
    while (l->writer) block_on(l, "rwlock rdlock");
    l->readers++;
    hb_acquire(l);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p)
{
    if (! simulated()) return 0;
    SimRw* l = reinterpret_cast<SimRw*>(p);
    point("rdlock");
    if (l->writer) return EBUSY;
    l->readers++;
    hb_acquire(l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p)
{
    if (! simulated()) return 0;
    SimRw* l = reinterpret_cast<SimRw*>(p);
    point("wrlock");
    if (l->writer == cur->id + 1) return EDEADLK;
    while (l->writer || l->readers) block_on(l, "rwlock wrlock");
    l->writer = cur->id + 1;
    hb_acquire(l);
    hb_acquire(reinterpret_cast<char*>(l) + 8);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* p)
{
    if (! simulated()) return 0;
    SimRw* l = reinterpret_cast<SimRw*>(p);
    point("wrlock");
    if (l->writer || l->readers) return EBUSY;
    l->writer = cur->id + 1;
    hb_acquire(l);
    hb_acquire(reinterpret_cast<char*>(l) + 8);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* p)
{
    if (! simulated()) return 0;
    SimRw* l = reinterpret_cast<SimRw*>(p);
    if (l->writer == cur->id + 1)
    {
        l->writer = 0;
        hb_release(l);
    }
    else if (l->readers > 0)
    {
        l->readers--;
        hb_release(reinterpret_cast<char*>(l) + 8); // readers order later writers, not later readers
    }
    else violation("a read-write lock was unlocked by a thread that does not hold it");
    wake(l, INT_MAX);
    point("rwunlock");
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    // 0 not run, 1 running, 2 done
    volatile int* s = reinterpret_cast<volatile int*>(o);
    if (! simulated())
    {
        if (*s != 2) { *s = 1; fn(); *s = 2; }
        return 0;
    }
    point("once");
    while (*s == 1) block_on(o, "once");
    if (*s == 0)
    {
        *s = 1;
        struct Guard { volatile int* s; pthread_once_t* o; ~Guard() { if (*s == 1) { *s = 0; wake(o, INT_MAX); } } } gd{ s, o };
        fn();
        hb_release(o);
        *s = 2;
        wake(o, INT_MAX);
    }
    hb_acquire(o);
    return 0;
}
// thread-safe statics: byte 0 done, byte 1 in progress
int __cxa_guard_acquire(uint64_t* gd)
{
    volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(gd);
    if (simulated()) { point("guard"); }
    if (b[0]) { if (simulated()) hb_acquire(gd); return 0; }
    if (simulated())
    {
        while (b[1])
        {
            if (b[2] == static_cast<uint8_t>(cur->id + 1)) { violation("recursive initialisation of a static"); return 0; }
            block_on(gd, "static initialisation");
        }
        if (b[0]) { hb_acquire(gd); return 0; }
        b[2] = static_cast<uint8_t>(cur->id + 1);
    }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* gd)
{
    volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(gd);
    if (simulated()) hb_release(gd);
    b[1] = 0;
    b[2] = 0;
    b[0] = 1;
    if (simulated()) { wake(gd, INT_MAX); }
}
void __cxa_guard_abort(uint64_t* gd)
{
    volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(gd);
    b[1] = 0;
    b[2] = 0;
    if (simulated()) wake(gd, INT_MAX);
}
// ---- semaphores, barriers, spin locks ----
int sem_init(sem_t* s, int, unsigned v) { memset(static_cast<void*>(s), 0, sizeof(*s)); *reinterpret_cast<int*>(s) = static_cast<int>(v); return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { if (! simulated()) return 0; point("sem_post"); hb_release(s); ++*reinterpret_cast<int*>(s); wake(s, INT_MAX); return 0; }
int sem_wait(sem_t* s) { if (! simulated()) return 0; point("sem_wait"); int* v = reinterpret_cast<int*>(s); while (*v <= 0) block_on(s, "semaphore wait"); --*v; hb_acquire(s); return 0; }
int sem_trywait(sem_t* s) { if (! simulated()) return 0; point("sem_try"); int* v = reinterpret_cast<int*>(s); if (*v <= 0) { errno = EAGAIN; return -1; } --*v; hb_acquire(s); return 0; }
int pthread_spin_init(pthread_spinlock_t* s, int) { *s = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* s) { if (! simulated()) return 0; point("spin"); while (*s) block_on(const_cast<int*>(s), "spin lock"); *s = 1; hb_acquire(const_cast<int*>(s)); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* s) { if (! simulated()) return 0; hb_release(const_cast<int*>(s)); *s = 0; wake(const_cast<int*>(s), INT_MAX); point("spinun"); return 0; }
// ---- time ----
static void clock_fault()
{
    const uint64_t k = fault(F_CLOCK_JUMP, 8);
    if (! k) return;
    switch (k)
    {
    case 1: g.mono += 1000000ull; break;
    case 2: g.mono += 1000000000ull; break;
    case 3: g.mono += 3600ull * 1000000000ull; break;
    case 4: g.wall_off += 86400ull * 1000000000ull; break;
    case 5: g.wall_off -= 3600ull * 1000000000ull; break;
    case 6: g.wall_off -= 20ull * 365 * 86400 * 1000000000ull; break;
    case 7: g.wall_off += 12ull * 365 * 86400 * 1000000000ull; break;
    case 8: g.mono += 30ull * 86400 * 1000000000ull; break;
    }
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (! simulated()) { if (g.active || host_depth) { ts->tv_sec = 0; ts->tv_nsec = 0; return 0; } return static_cast<int>(raw_syscall(SYS_clock_gettime, c, ts)); }
    clock_fault();
    g.mono += 100;
    uint64_t v = g.mono;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += g.wall_off;
    if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) v = g.mono / 2;
    ts->tv_sec = static_cast<time_t>(v / 1000000000ull);
    ts->tv_nsec = static_cast<long>(v % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* out_t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out_t) *out_t = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return static_cast<clock_t>(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
static int sim_sleep(uint64_t deadline)
{
    hash_ev(static_cast<uint64_t>(cur->id), 0x51EE);
    probe("sleeps");
    block_on(&cur->deadline, "sleep", true, deadline);
    return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (! simulated()) return 0;
    if (rem) rem->tv_sec = rem->tv_nsec = 0;
    return sim_sleep(g.mono + static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem)
{
    if (! simulated()) return 0;
    if (flags & TIMER_ABSTIME) return sim_sleep(abs_to_mono(c, ts));
    return nanosleep(ts, rem);
}
int usleep(useconds_t us) { if (! simulated()) return 0; return sim_sleep(g.mono + us * 1000ull); }
unsigned sleep(unsigned s) { if (! simulated()) return 0; sim_sleep(g.mono + s * 1000000000ull); return 0; }
int sched_yield(void)
{
    if (simulated()) yield_point();
    return 0;
}
int get_nprocs(void) { return g.ncpu > 0 ? g.ncpu : (g.active ? 0 : 1); }
int sched_getcpu(void) { return 0; }
// ---- raw system calls made by libstdc++ (atomic wait/notify) ----
long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (simulated())
    {
        if (nr == SYS_futex)
        {
            int* addr = reinterpret_cast<int*>(a[0]);
            const int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                point("futex_wait");
                if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) { errno = EAGAIN; return -1; }
                if (fault(F_SPURIOUS, 1)) { yield_point(); return 0; }
                const struct timespec* ts = reinterpret_cast<const struct timespec*>(a[3]);
                uint64_t dl = 0;
                if (ts) dl = op == FUTEX_WAIT ? g.mono + static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + static_cast<uint64_t>(ts->tv_nsec) : abs_to_mono((static_cast<int>(a[1]) & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
                block_on(addr, "futex wait", ts != nullptr, dl);
                if (ts && cur->timed_out) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                point("futex_wake");
                return wake(addr, static_cast<int>(a[2]));
            }
        }
        if (nr == SYS_sched_yield) { yield_point(); return 0; }
        if (nr == SYS_getrandom)
        {
            uint8_t* b = reinterpret_cast<uint8_t*>(a[0]);
            for (long i = 0; i < a[1]; ++i) b[i] = static_cast<uint8_t>(work_rng().next());
            return a[1];
        }
    }
    const long r = raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
    return r;
}
ssize_t getrandom(void* b, size_t n, unsigned)
{
    for (size_t i = 0; i < n; ++i) static_cast<uint8_t*>(b)[i] = static_cast<uint8_t>(work_rng().next());
    return static_cast<ssize_t>(n);
}
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
uint32_t arc4random(void) { return static_cast<uint32_t>(work_rng().next()); }

// ---- the parallel-algorithms backend ----
void sim_set_par_degree(std::size_t n) { g.par_degree = static_cast<int>(n); }
std::size_t sim_par_degree(void) { return static_cast<std::size_t>(g.par_degree); }
static __thread int in_par = 0;
std::size_t sim_par_chunks(std::size_t n)
{
    if (! simulated() || in_par || n < 2 || g.par_degree < 2) return 1;
    static const long long cfg = spec_int("par_chunks", 0);
    std::size_t k = cfg > 0 ? static_cast<std::size_t>(cfg) : static_cast<std::size_t>(g.par_degree) * 2;
    return k < n ? k : n;
}
struct ParJob
{
    void (*fn)(void*, std::size_t);
    void* ctx;
    std::size_t chunks, next;
};
static void* par_worker(void* p)
{
    ParJob* j = static_cast<ParJob*>(p);
    ++in_par;
    for (;;)
    {
        point("par"); // claiming a chunk is a scheduling point; the claim itself is atomic
        if (j->next >= j->chunks) break;
        j->fn(j->ctx, j->next++);
    }
    --in_par;
    return nullptr;
}
void sim_par_run(std::size_t chunks, void (*fn)(void*, std::size_t), void* ctx)
{
    ParJob j{ fn, ctx, chunks, 0 };
    pthread_t t[16];
    int n = 0;
    int want = g.par_degree - 1;
    if (want > 7) want = 7;
    if (static_cast<std::size_t>(want) > chunks - 1) want = static_cast<int>(chunks - 1);
    for (int i = 0; i < want; ++i)
        if (pthread_create(&t[n], nullptr, par_worker, &j) == 0) ++n;
    probe("par_algorithms");
    par_worker(&j);
    for (int i = 0; i < n; ++i) pthread_join(t[i], nullptr);
}
}
