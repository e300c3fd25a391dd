// Compiler-inserted access callbacks: access-level preemption, happens-before race detection, use-after-free and
// out-of-bounds detection on the simulated heap, and shadow call stacks.
#include "core.h"
#include <cstdio>
#include <cstring>
#include <sys/mman.h>

namespace sim
{
namespace
{
// One cell: the last accesses to (part of) an 8-byte granule.
//   clk 23 | tid 6 | off 3 | len-1 3 | atomic 1 | write 1 | pc 27
// Special values in cell 0 (pc == 0): FREED / REDZONE.
constexpr int CELLS = 4;
constexpr uint64_t FREED = ~0ull, REDZONE = ~0ull - 1;
uint64_t* const shadow = reinterpret_cast<uint64_t*>(SHADOW_BASE);
uint32_t* const syncidx = reinterpret_cast<uint32_t*>(SYNCIDX_BASE);
constexpr uint64_t PCM = (1u << 27) - 1;

struct SyncObj
{
    VC vc;
};
SyncObj* syncs = nullptr; // chunked growth in host memory
SyncObj** sync_chunks = nullptr;
uint32_t nsync = 0;
uint32_t* sync_free = nullptr;
uint32_t nsync_free = 0, cap_sync_free = 0;
constexpr uint32_t CH = 1024;

inline uint64_t mk(uint32_t clk, int tid, unsigned off, unsigned len, bool atomic, bool write, uintptr_t pc)
{
    return (static_cast<uint64_t>(clk) << 41) | (static_cast<uint64_t>(tid) << 35) | (static_cast<uint64_t>(off) << 32) | (static_cast<uint64_t>(len - 1) << 29) | (static_cast<uint64_t>(atomic) << 28) | (static_cast<uint64_t>(write) << 27) | (pc & PCM);
}
inline uint32_t c_clk(uint64_t c) { return static_cast<uint32_t>(c >> 41); }
inline int c_tid(uint64_t c) { return static_cast<int>((c >> 35) & 63); }
inline unsigned c_off(uint64_t c) { return (c >> 32) & 7; }
inline unsigned c_len(uint64_t c) { return ((c >> 29) & 7) + 1; }
inline bool c_atomic(uint64_t c) { return (c >> 28) & 1; }
inline bool c_write(uint64_t c) { return (c >> 27) & 1; }
inline uintptr_t c_pc(uint64_t c) { return c & PCM; }

inline bool gran_of(uintptr_t a, uintptr_t& gr)
{
    if (a >= HEAP_BASE && a < STACK_END) { gr = (a - HEAP_BASE) / 8; return true; }
    if (a >= IMG_LO && a < IMG_HI) { gr = (STACK_END - HEAP_BASE) / 8 + (a - IMG_LO) / 8; return true; }
    return false;
}

constexpr int MAXR = 24;
struct RaceKey { uintptr_t a, b; };
RaceKey seen[MAXR];
int nraces = 0;

__attribute__((noinline)) void report_race(uintptr_t addr, uint64_t now, uint64_t prev, const char* what)
{
    const uintptr_t a = c_pc(now), b = c_pc(prev);
    for (int i = 0; i < nraces; ++i)
        if ((seen[i].a == a && seen[i].b == b) || (seen[i].a == b && seen[i].b == a)) return;
    if (nraces >= MAXR) return;
    seen[nraces++] = { a, b };
    const char* where = addr >= STACK_BASE && addr < STACK_END ? "stack" : addr < IMG_HI ? "global" : "heap";
    out("race=%s %s pc=%lx prev=%s%s%s pc=%lx mem=%s tid=%d prevtid=%d ev=%llu\n", what, c_atomic(now) ? "atomic" : "plain", static_cast<unsigned long>(a), c_write(prev) ? "write" : "read", c_atomic(prev) ? " atomic" : "", "", static_cast<unsigned long>(b), where, c_tid(now), c_tid(prev), static_cast<unsigned long long>(g.ev));
    print_stack("race_stack", cur);
    probe("races");
}

__attribute__((noinline)) void report_bad(uintptr_t addr, bool write, uint64_t mark, uintptr_t pc)
{
    static int n = 0;
    if (n++) return;
    print_stack("bad_stack", cur);
    violation("memory: %s of %s heap memory at pc=%lx", write ? "write" : "read", mark == FREED ? "freed" : "out-of-bounds", static_cast<unsigned long>(pc));
    (void)addr;
}

inline void check(uintptr_t addr, unsigned off, unsigned len, uintptr_t gr, bool write, bool atomic, uintptr_t pc)
{
    uint64_t* s = shadow + gr * CELLS;
    Thread* t = cur;
    const uint64_t me = mk(t->vc.c[t->id], t->id, off, len, atomic, write, pc);
    const uint64_t first = s[0];
    // fast path: same thread, same epoch, same bytes already recorded with at least this strength
    const uint64_t K = ~((1ull << 27) | PCM);
    if (((first ^ me) & K) == 0 && (c_write(first) || ! write)) return;
    if (first >= REDZONE)
    {
        report_bad(addr, write, first, pc);
        return;
    }
    int slot = -1;
    int oldest = 0;
    for (int i = 0; i < CELLS; ++i)
    {
        const uint64_t c = s[i];
        if (c == 0) { if (slot < 0) slot = i; continue; }
        const unsigned o = c_off(c), l = c_len(c);
        if (c_tid(c) == t->id)
        {
            // superseded by this access when covered and not stronger
            if (o >= off && o + l <= off + len && (write || ! c_write(c)) && (! atomic || c_atomic(c))) { s[i] = 0; if (slot < 0) slot = i; }
            else if (i == 0 && o <= off && o + l >= off + len && c_clk(c) == c_clk(me) && (c_write(c) || ! write) && c_atomic(c) == atomic) return;
            continue;
        }
        if (o < off + len && off < o + l)
        {
            if ((write || c_write(c)) && ! (atomic && c_atomic(c)) && c_clk(c) > t->vc.c[c_tid(c)]) { report_race(addr, me, c, write ? "write" : "read"); s[i] = 0; if (slot < 0) slot = i; continue; }
            // an ordered earlier access is subsumed by a covering write (or read of a read)
            if (o >= off && o + l <= off + len && (write || ! c_write(c)) && c_clk(c) <= t->vc.c[c_tid(c)] && ! atomic) { s[i] = 0; if (slot < 0) slot = i; }
        }
    }
    if (slot < 0)
    {
        // evict something, preferring reads
        oldest = 1 + static_cast<int>((t->vc.c[t->id] + pc) % (CELLS - 1));
        for (int i = 1; i < CELLS; ++i)
            if (! c_write(s[i])) { oldest = i; break; }
        slot = oldest;
    }
    // most recent first
    if (slot != 0) s[slot] = s[0];
    s[0] = me;
}

__attribute__((noinline)) void watch_report(uintptr_t addr, unsigned len, bool write, uintptr_t pc)
{
    out("watch=%s tid=%d pc=%lx addr=%lx len=%u ev=%llu clk=%u\n", write ? "write" : "read", cur->id, static_cast<unsigned long>(pc), static_cast<unsigned long>(addr), len, static_cast<unsigned long long>(g.ev), cur->vc.c[cur->id]);
    print_stack("watch_stack", cur);
}

__attribute__((noinline)) void trace_pc(uintptr_t pc)
{
    if (g.trace_n < (1ull << 30)) g.trace[g.trace_n] = static_cast<uint32_t>(pc);
    if (++g.trace_n == g.trace_stop)
    {
        print_stack("trace_stack", cur);
        end_run("traced", 0);
    }
}

inline void access(uintptr_t a, unsigned n, bool write, bool atomic, uintptr_t pc)
{
    if (cur == nullptr || host_depth) return;
    if (__builtin_expect(g.trace != nullptr, 0)) trace_pc(pc);
    if (--g.acc_cd <= 0) access_preempt();
    if (! g.hb) return;
    uintptr_t gr;
    while (n)
    {
        const unsigned off = a & 7;
        const unsigned k = n < 8 - off ? n : 8 - off;
        if (gran_of(a, gr))
        {
            if (g.watch && (a & ~7ull) == (g.watch & ~7ull)) watch_report(a, k, write, pc);
            check(a, off, k, gr, write, atomic, pc);
        }
        a += k;
        n -= k;
    }
}

inline void range(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
    if (cur == nullptr || host_depth || n == 0) return;
    if (__builtin_expect(g.trace != nullptr, 0)) trace_pc(pc);
    if (--g.acc_cd <= 0) access_preempt();
    if (! g.hb) return;
    uintptr_t gr;
    while (n)
    {
        const unsigned off = a & 7;
        const unsigned k = n < 8 - off ? static_cast<unsigned>(n) : 8 - off;
        if (gran_of(a, gr))
        {
            if (g.watch && (a & ~7ull) == (g.watch & ~7ull)) watch_report(a, k, write, pc);
            check(a, off, k, gr, write, false, pc);
        }
        a += k;
        n -= k;
    }
}

VC* sync_of(const void* obj, bool create)
{
    uintptr_t gr;
    if (! gran_of(reinterpret_cast<uintptr_t>(obj), gr)) gr = (reinterpret_cast<uintptr_t>(obj) / 8) % 65536; // something outside the arenas: shared slots
    uint32_t i = syncidx[gr];
    if (i == 0)
    {
        if (! create) return nullptr;
        if (nsync_free) i = sync_free[--nsync_free];
        else
        {
            i = ++nsync;
            if (sync_chunks == nullptr) { sync_chunks = static_cast<SyncObj**>(host_alloc(sizeof(void*) * 65536)); memset(sync_chunks, 0, sizeof(void*) * 65536); }
            if (sync_chunks[i / CH] == nullptr) sync_chunks[i / CH] = static_cast<SyncObj*>(host_alloc(sizeof(SyncObj) * CH));
        }
        memset(&sync_chunks[i / CH][i % CH], 0, sizeof(SyncObj));
        syncidx[gr] = i;
    }
    return &sync_chunks[i / CH][i % CH].vc;
}

inline void join_vc(VC& a, const VC& b)
{
    for (int i = 0; i < MAXT; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
inline void tick(Thread* t)
{
    if (++t->vc.c[t->id] >= (1u << 23) - 4)
    {
        if (g.hb) { g.hb = false; probe("hb_overflow"); }
    }
}
} // namespace

void hb_init()
{
    void* a = mmap(reinterpret_cast<void*>(SHADOW_BASE), NGRAN * CELLS * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(reinterpret_cast<void*>(SYNCIDX_BASE), NGRAN * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a == MAP_FAILED || b == MAP_FAILED)
    {
        static const char m[] = "sim: cannot map shadow memory\n";
        raw_syscall(1, 2, m, sizeof(m) - 1);
        raw_syscall(231, 99);
    }
    madvise(a, NGRAN * CELLS * 8, MADV_NOHUGEPAGE);
    madvise(b, NGRAN * 4, MADV_NOHUGEPAGE);
    (void)syncs;
}
void hb_acquire(const void* o)
{
    if (! g.hb || ! cur) return;
    VC* v = sync_of(o, false);
    if (v) join_vc(cur->vc, *v);
}
void hb_release(const void* o)
{
    if (! g.hb || ! cur) return;
    join_vc(*sync_of(o, true), cur->vc);
    tick(cur);
}
void hb_release_set(const void* o)
{
    if (! g.hb || ! cur) return;
    *sync_of(o, true) = cur->vc;
    tick(cur);
}
void hb_fork(Thread* p, Thread* c)
{
    join_vc(c->vc, p->vc);
    c->vc.c[c->id]++;
    tick(p);
    if (! g.hb) return;
    // a reused stack starts without history
    const uintptr_t lo = STACK_BASE + STACK_SLOT * static_cast<uintptr_t>(c->id);
    madvise(shadow + (lo - HEAP_BASE) / 8 * CELLS, STACK_SLOT * CELLS, MADV_DONTNEED);
    madvise(syncidx + (lo - HEAP_BASE) / 8, STACK_SLOT / 2, MADV_DONTNEED);
}
void hb_on_alloc(uintptr_t p, size_t n, size_t cls)
{
    uintptr_t gr = (p - HEAP_BASE) / 8;
    uint64_t* s = shadow + gr * CELLS;
    // header in front and the unused tail behind
    s[-2 * CELLS] = REDZONE;
    s[-CELLS] = REDZONE;
    const size_t used = (n + 7) / 8, all = cls / 8;
    memset(s, 0, used * CELLS * 8);
    for (size_t i = used; i < all; ++i) s[i * CELLS] = REDZONE;
}
void hb_on_free(uintptr_t p, size_t n)
{
    uintptr_t gr = (p - HEAP_BASE) / 8;
    uint64_t* s = shadow + gr * CELLS;
    Thread* t = cur;
    const size_t used = (n + 7) / 8;
    for (size_t i = 0; i < used; ++i, s += CELLS)
    {
        if (s[0] < REDZONE && i < 512)
            for (int k = 0; k < CELLS; ++k)
            {
                const uint64_t c = s[k];
                if (c && c_tid(c) != t->id && c_clk(c) > t->vc.c[c_tid(c)])
                {
                    const uintptr_t pc = t->depth > 0 ? t->stack[(t->depth <= 256 ? t->depth : 256) - 1] : 0;
                    report_race(p + i * 8, mk(t->vc.c[t->id], t->id, 0, 8, false, true, pc), c, "free");
                    break;
                }
            }
        s[0] = FREED;
        const uint32_t si = syncidx[gr + i];
        if (si)
        {
            syncidx[gr + i] = 0;
            if (nsync_free == cap_sync_free)
            {
                const uint32_t nc = cap_sync_free ? cap_sync_free * 2 : 1024;
                uint32_t* b = static_cast<uint32_t*>(host_alloc(nc * 4ul));
                if (nsync_free) memcpy(b, sync_free, nsync_free * 4ul);
                sync_free = b;
                cap_sync_free = nc;
            }
            sync_free[nsync_free++] = si;
        }
    }
}
int hb_races() { return nraces; }
} // namespace sim

using namespace sim;
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define A(p) reinterpret_cast<uintptr_t>(p)
namespace
{
struct Fences { bool rel, acq; VC relv, acqv; };
Fences* fences = nullptr;
Fences& fen()
{
    if (! fences) { fences = static_cast<Fences*>(host_alloc(sizeof(Fences) * MAXT)); memset(fences, 0, sizeof(Fences) * MAXT); }
    return fences[cur->id];
}
bool any_fence = false;
enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
inline bool is_acq(int mo) { return mo == ACQUIRE || mo == CONSUME || mo == ACQ_REL || mo == SEQ_CST; }
inline bool is_rel(int mo) { return mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST; }
inline bool sim_on() { return cur != nullptr && ! host_depth && g.active; }
inline void at_before(const volatile void* p, unsigned n, bool write, uintptr_t pc)
{
    point(write ? "atomic_w" : "atomic_r");
    if (g.hb)
    {
        uintptr_t gr;
        const uintptr_t a = A(p);
        if (n <= 8 && gran_of(a, gr)) check(a, a & 7, n, gr, write, true, pc);
    }
}
inline void at_acq(const volatile void* p, int mo)
{
    if (! g.hb) return;
    if (is_acq(mo)) hb_acquire(const_cast<const void*>(p));
    else if (any_fence)
    {
        VC* v = sync_of(const_cast<const void*>(p), false);
        if (v) { Fences& f = fen(); f.acq = true; join_vc(f.acqv, *v); }
    }
    else
    {
        // a later acquire fence needs what a relaxed load saw
        VC* v = sync_of(const_cast<const void*>(p), false);
        if (v) { Fences& f = fen(); f.acq = true; join_vc(f.acqv, *v); }
    }
}
inline void at_rel(const volatile void* p, int mo, bool rmw)
{
    if (! g.hb) return;
    const void* o = const_cast<const void*>(p);
    if (is_rel(mo)) { if (rmw) hb_release(o); else hb_release_set(o); }
    else
    {
        Fences& f = fen();
        if (f.rel) { VC* v = sync_of(o, true); if (rmw) join_vc(*v, f.relv); else *v = f.relv; }
        else if (! rmw)
        {
            VC* v = sync_of(o, false); // a plain relaxed store breaks the release sequence
            if (v) memset(v, 0, sizeof(*v));
        }
    }
}
} // namespace

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
    Thread* t = cur;
    if (t == nullptr) return;
    const uint32_t d = t->depth++;
    if (d < 256) t->stack[d] = A(pc);
}
void __tsan_func_exit()
{
    Thread* t = cur;
    if (t == nullptr) return;
    if (t->depth) t->depth--;
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(A(p), n, false, false, PC); } \
    void __tsan_write##n(void* p) { access(A(p), n, true, false, PC); } \
    void __tsan_read_write##n(void* p) { access(A(p), n, true, false, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(A(p), n, false, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(A(p), n, true, false, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access(A(p), n, true, false, PC); } \
    void __tsan_volatile_read##n(void* p) { access(A(p), n, false, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(A(p), n, true, false, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(A(p), n, false, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(A(p), n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(A(p), 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(A(p), 8, false, false, PC); }
void __tsan_read_range(void* p, size_t n) { range(A(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { range(A(p), n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range(A(s), n, false, PC); range(A(d), n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range(A(s), n, false, PC); range(A(d), n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range(A(d), n, true, PC); return memset(d, c, n); }

#define ATOMIC(T, bits) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) \
    { \
        if (! sim_on()) return __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        at_before(p, sizeof(T), false, PC); \
        T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        at_acq(p, mo); \
        return v; \
    } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) \
    { \
        if (! sim_on()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; } \
        at_before(p, sizeof(T), true, PC); \
        at_rel(p, mo, false); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) \
    { \
        if (! sim_on()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
        at_before(p, sizeof(T), true, PC); \
        at_acq(p, mo); \
        at_rel(p, mo, true); \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) \
    { \
        if (! sim_on()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_before(p, sizeof(T), true, PC); \
        const bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_acq(p, ok ? mo : fmo); \
        if (ok) at_rel(p, mo, true); \
        return ok; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) \
    { \
        if (! sim_on()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_before(p, sizeof(T), true, PC); \
        if (fault(F_SPURIOUS_CAS, 1)) { *e = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_acq(p, fmo); return 0; } \
        const bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_acq(p, ok ? mo : fmo); \
        if (ok) at_rel(p, mo, true); \
        return ok; \
    } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) \
    { \
        if (! sim_on()) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; } \
        at_before(p, sizeof(T), true, PC); \
        const bool ok = __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_acq(p, ok ? mo : fmo); \
        if (ok) at_rel(p, mo, true); \
        return e; \
    }
#define ATOMIC_RMW(T, bits, name, op) \
    T __tsan_atomic##bits##_fetch_##name(volatile T* p, T v, int mo) \
    { \
        if (! sim_on()) return op(p, v, __ATOMIC_SEQ_CST); \
        at_before(p, sizeof(T), true, PC); \
        at_acq(p, mo); \
        at_rel(p, mo, true); \
        return op(p, v, __ATOMIC_SEQ_CST); \
    }
#define ATOMIC_ALL(T, bits) \
    ATOMIC(T, bits) \
    ATOMIC_RMW(T, bits, add, __atomic_fetch_add) ATOMIC_RMW(T, bits, sub, __atomic_fetch_sub) ATOMIC_RMW(T, bits, and, __atomic_fetch_and) \
    ATOMIC_RMW(T, bits, or, __atomic_fetch_or) ATOMIC_RMW(T, bits, xor, __atomic_fetch_xor) ATOMIC_RMW(T, bits, nand, __atomic_fetch_nand)
ATOMIC_ALL(uint8_t, 8)
ATOMIC_ALL(uint16_t, 16)
ATOMIC_ALL(uint32_t, 32)
ATOMIC_ALL(uint64_t, 64)
void __tsan_atomic_thread_fence(int mo)
{
    if (! sim_on()) return;
    point("fence");
    if (! g.hb) return;
    any_fence = true;
    Fences& f = fen();
    if (is_acq(mo) && f.acq) join_vc(cur->vc, f.acqv);
    if (is_rel(mo)) { f.rel = true; f.relv = cur->vc; tick(cur); }
}
void __tsan_atomic_signal_fence(int) {}
}
