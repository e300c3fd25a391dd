// Deterministic allocator: fixed addresses, seeded layout, freed and fresh memory filled with a seeded pattern.
#include "core.h"
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <initializer_list>
#include <execinfo.h>
#include <sys/mman.h>

namespace sim
{
namespace
{
constexpr uint32_t LIVE = 0x51AB1E01, FREE = 0xF4EEF4EE, ALIGNED = 0xA1160000, NCLS = 64 + 4 * 24 + 1;
struct Hdr
{
    uint32_t cls;
    uint32_t magic;
    union
    {
        uint64_t size;
        Hdr* next;
    };
};
static_assert(sizeof(Hdr) == 16);

struct Arena
{
    uintptr_t base, size, bump;
    Hdr* head[NCLS];
    Hdr* tail[NCLS];
    bool ready;
    uint64_t live_n, live_b;
};
Arena heap{ HEAP_BASE, HEAP_SIZE, HEAP_BASE, {}, {}, false, 0, 0 };
Arena host{ HOST_BASE, HOST_SIZE, HOST_BASE, {}, {}, false, 0, 0 };
Rng arng;

int order = 0; // 0 LIFO 1 FIFO 2 random end
bool gaps = false;

void ensure(Arena& a)
{
    if (a.ready) return;
    a.ready = true;
    void* p = mmap(reinterpret_cast<void*>(a.base), a.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != reinterpret_cast<void*>(a.base))
    {
        static const char m[] = "sim: cannot map the arena\n";
        raw_syscall(1, 2, m, sizeof(m) - 1);
        raw_syscall(231, 99);
    }
    a.bump = a.base + 64;
}

inline uint32_t cls_of(size_t n)
{
    if (n <= 1024) return n == 0 ? 1 : static_cast<uint32_t>((n + 15) / 16);
    const int lg = 63 - __builtin_clzll(n - 1); // 2^lg <= n-1 < 2^(lg+1); n-1 >= 1024
    const size_t sub = ((n - 1) >> (lg - 2)) & 3;
    return 65 + static_cast<uint32_t>((lg - 10) * 4 + sub);
}
inline size_t cls_size(uint32_t c)
{
    if (c <= 64) return c * 16ul;
    const uint32_t k = c - 65;
    const int lg = 10 + static_cast<int>(k / 4);
    return ((4ul + k % 4 + 1) << (lg - 2));
}

inline void push(Arena& a, Hdr* h)
{
    const uint32_t c = h->cls;
    h->magic = FREE;
    bool front = true;
    if (&a == &heap && order != 0) front = order == 2 && (arng.next() & 1);
    if (a.head[c] == nullptr)
    {
        h->next = nullptr;
        a.head[c] = a.tail[c] = h;
    }
    else if (front)
    {
        h->next = a.head[c];
        a.head[c] = h;
    }
    else
    {
        h->next = nullptr;
        a.tail[c]->next = h;
        a.tail[c] = h;
    }
}

void carve(Arena& a, uint32_t c)
{
    const size_t bs = cls_size(c) + sizeof(Hdr);
    size_t k = 1;
    if (&a == &heap && gaps)
    {
        if (bs <= 1024) k = 1 + arng.below(24);
        a.bump += 16 * arng.below(bs <= 4096 ? 16 : 300);
    }
    else if (bs <= 512) k = 8;
    if (a.bump + bs * k > a.base + a.size) { errno = ENOMEM; return; }
    uint32_t perm[32];
    for (size_t i = 0; i < k; ++i) perm[i] = static_cast<uint32_t>(i);
    if (&a == &heap && gaps)
        for (size_t i = k; i > 1; --i)
        {
            const size_t j = arng.below(i);
            const uint32_t t = perm[i - 1];
            perm[i - 1] = perm[j];
            perm[j] = t;
        }
    for (size_t i = 0; i < k; ++i)
    {
        Hdr* h = reinterpret_cast<Hdr*>(a.bump + perm[i] * bs);
        h->cls = c;
        push(a, h);
    }
    a.bump += bs * k;
}

inline bool use_host() { return host_depth > 0 || (g.active && cur == nullptr); }

// Libraries that swallow the failure themselves are left out, or, if the case says so (alloc_in=lib), the only ones that fail.
bool alloc_may_fail()
{
    ++host_depth;
    void* pc[64];
    const int n = backtrace(pc, 64);
    const char* lib = nullptr;
    for (int i = 0; i < n && ! lib; ++i)
    {
        Dl_info d;
        if (! dladdr(pc[i], &d) || ! d.dli_fname) continue;
        for (const char* l : { "libpolyclipping", "libprotobuf", "libpng", "libspdlog" })
            if (strstr(d.dli_fname, l)) lib = l;
    }
    const char* in = spec_str("alloc_in", "");
    const bool fails = ! strcmp(in, lib ? lib : "");
    out("alloc_failed=%d %s\n", fails, lib ? lib : "engine");
    if (fails && cur) print_stack("alloc_stack", cur);
    --host_depth;
    return fails;
}

void* do_alloc(size_t n)
{
    Arena& a = use_host() ? host : heap;
    ensure(a);
    if (n > (2ull << 30)) { errno = ENOMEM; return nullptr; }
    if (&a == &heap && g.active && fault(F_ALLOC_FAIL, 1) && alloc_may_fail()) { errno = ENOMEM; return nullptr; }
    const uint32_t c = cls_of(n);
    if (a.head[c] == nullptr) carve(a, c);
    Hdr* h = a.head[c];
    if (h == nullptr) { errno = ENOMEM; return nullptr; }
    a.head[c] = h->next;
    h->magic = LIVE;
    h->size = n;
    a.live_n++;
    a.live_b += n;
    if (&a == &heap)
    {
        if (g.active)
        {
            memset(h + 1, g.fill, n);
            if (g.hb) hb_on_alloc(reinterpret_cast<uintptr_t>(h + 1), n, cls_size(c));
        }
    }
    return h + 1;
}

void do_free(void* p)
{
    if (p == nullptr) return;
    const uintptr_t u = reinterpret_cast<uintptr_t>(p);
    Arena* a = (u >= heap.base && u < heap.base + heap.size) ? &heap : (u >= host.base && u < host.base + host.size) ? &host : nullptr;
    if (a == nullptr) return; // not ours (never happens)
    Hdr* h = static_cast<Hdr*>(p) - 1;
    if (h->magic == ALIGNED) { do_free(reinterpret_cast<void*>(h->size)); return; }
    if (h->magic != LIVE)
    {
        if (g.active && cur) violation("memory: free of a pointer that is not a live allocation (%s)", h->magic == FREE ? "double free" : "bad pointer");
        return;
    }
    if (thread_exiting) return; // leak an exiting thread's leftovers: it is no longer scheduled
    a->live_n--;
    a->live_b -= h->size;
    if (a == &heap && g.active)
    {
        memset(p, 0xDD, h->size > 65536 ? 65536 : h->size);
        if (g.hb && cur) hb_on_free(u, h->size);
    }
    push(*a, h);
}
size_t usable(const void* p)
{
    const Hdr* h = static_cast<const Hdr*>(p) - 1;
    if (h->magic == ALIGNED)
    {
        const Hdr* o = reinterpret_cast<const Hdr*>(h->size) - 1;
        return o->size - (reinterpret_cast<uintptr_t>(p) - h->size);
    }
    return h->size;
}
} // namespace

void* host_alloc(size_t n)
{
    ++host_depth;
    void* p = do_alloc(n);
    --host_depth;
    return p;
}
void alloc_seed(uint64_t seed)
{
    arng.seed(seed);
    order = seed ? static_cast<int>(arng.below(3)) : 0;
    gaps = seed != 0;
    static const uint8_t fills[] = { 0x00, 0xA5, 0xFF, 0x7F, 0xCD, 0x01 };
    g.fill = seed ? fills[arng.below(6)] : 0xA5;
}
void heap_counts(uint64_t& n, uint64_t& bytes)
{
    n = heap.live_n;
    bytes = heap.live_b;
}
} // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n) { return do_alloc(n); }
void free(void* p) { const int e = errno; do_free(p); errno = e; }
void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = do_alloc(n);
    if (p) memset(p, 0, n);
    return p;
}
size_t malloc_usable_size(void* p)
{
    if (!p) return 0;
    return usable(p);
}
void* realloc(void* p, size_t n)
{
    if (p == nullptr) return do_alloc(n);
    if (n == 0) { do_free(p); return nullptr; }
    const size_t old = usable(p);
    void* q = do_alloc(n);
    if (q == nullptr) return nullptr;
    memcpy(q, p, old < n ? old : n);
    do_free(p);
    return q;
}
void* memalign(size_t al, size_t n)
{
    if (al <= 16) return do_alloc(n);
    char* p = static_cast<char*>(do_alloc(n + al + 16));
    if (!p) return nullptr;
    uintptr_t u = (reinterpret_cast<uintptr_t>(p) + 16 + al - 1) & ~(al - 1);
    Hdr* h = reinterpret_cast<Hdr*>(u) - 1;
    h->magic = ALIGNED;
    h->cls = 0;
    h->size = reinterpret_cast<uintptr_t>(p);
    return reinterpret_cast<void*>(u);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n)
{
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ul); }
}
