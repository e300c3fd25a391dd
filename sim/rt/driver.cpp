// Runs: parses specifications, starts simulated processes (one forked child per run), collects results.
#include "core.h"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <execinfo.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

asm(".text\n.globl sim_raw_syscall_asm\nsim_raw_syscall_asm:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n");
extern "C" long sim_raw_syscall_asm(long, ...);

namespace sim
{
extern "C" long raw_syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a) x = va_arg(ap, long);
    va_end(ap);
    return sim_raw_syscall_asm(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

const char* const fault_name[F_N] = { "spurious_wakeup", "open_fail", "read_eio", "read_short", "read_eintr", "write_enospc", "write_eio", "write_short", "write_eintr", "close_eio", "seek_fail", "alloc_fail", "thread_fail", "clock_jump", "stall", "kill", "net_delay", "net_refuse", "net_drop", "net_garbage", "spurious_cas" };

void sched_setup();
void sched_report();
void run_main(void* (*fn)(void*));

namespace
{
// ---- specification ----
struct KV { const char* k; const char* v; };
KV* spec = nullptr;
size_t nspec = 0;

void parse_spec(char* text)
{
    size_t lines = 1;
    for (char* p = text; *p; ++p) lines += *p == '\n';
    spec = static_cast<KV*>(host_alloc(sizeof(KV) * (lines + 1)));
    nspec = 0;
    char* p = text;
    while (p && *p)
    {
        char* e = strchr(p, '\n');
        if (e) *e = 0;
        char* q = strchr(p, '=');
        if (q && *p != '#')
        {
            *q = 0;
            spec[nspec++] = { p, q + 1 };
        }
        p = e ? e + 1 : nullptr;
    }
}

// ---- output ----
char* obuf = nullptr;
size_t olen = 0, ocap = 0;
const char* result_path = nullptr;
void oput(const char* s, size_t n)
{
    if (olen + n > ocap)
    {
        size_t nc = ocap ? ocap * 2 : 1 << 16;
        while (nc < olen + n) nc *= 2;
        char* b = static_cast<char*>(host_alloc(nc));
        if (olen) memcpy(b, obuf, olen);
        obuf = b;
        ocap = nc;
    }
    memcpy(obuf + olen, s, n);
    olen += n;
}

// ---- faults ----
struct FaultCfg
{
    double p;
    uint64_t max, fired, ops, skip;
    bool explicit_list;
};
FaultCfg fc[F_N];
struct Ev { Fault k; uint64_t idx, arg; };
Ev* evs = nullptr;
size_t nevs = 0;
Rng frng, wrng;

int fault_by_name(const char* s, size_t n)
{
    for (int i = 0; i < F_N; ++i)
        if (strlen(fault_name[i]) == n && ! strncmp(fault_name[i], s, n)) return i;
    return -1;
}

void setup_faults()
{
    frng.seed(static_cast<uint64_t>(spec_int("fault_seed", 1)));
    wrng.seed(static_cast<uint64_t>(spec_int("work_seed", 1)));
    memset(fc, 0, sizeof(fc));
    const size_t n = spec_count("fault");
    evs = static_cast<Ev*>(host_alloc(sizeof(Ev) * (n + 1)));
    for (size_t i = 0; i < n; ++i)
    {
        const char* s = spec_nth("fault", i);
        const char* at = strchr(s, '@');
        if (! at) continue;
        const int k = fault_by_name(s, static_cast<size_t>(at - s));
        if (k < 0) continue;
        char* e;
        const uint64_t idx = strtoull(at + 1, &e, 10);
        const uint64_t arg = *e == ':' ? strtoull(e + 1, nullptr, 10) : 1;
        evs[nevs++] = { static_cast<Fault>(k), idx, arg };
    }
    for (size_t i = 0; i < spec_count("pfault"); ++i)
    {
        // kind:probability:max
        const char* s = spec_nth("pfault", i);
        const char* c = strchr(s, ':');
        if (! c) continue;
        const int k = fault_by_name(s, static_cast<size_t>(c - s));
        if (k < 0) continue;
        char* e;
        fc[k].p = strtod(c + 1, &e);
        fc[k].max = *e == ':' ? strtoull(e + 1, nullptr, 10) : ~0ull;
    }
}

// ---- probes ----
struct Probe { const char* name; uint64_t n; };
Probe probes[128];
int nprobes = 0;

struct Wl { const char* name; WorkloadFn fn; };
Wl wls[64];
int nwls = 0;
bool ended = false;
bool finishing = false;
int exit_code = 0;
} // namespace

const char* spec_str(const char* key, const char* dflt)
{
    for (size_t i = 0; i < nspec; ++i)
        if (! strcmp(spec[i].k, key)) return spec[i].v;
    return dflt;
}
long long spec_int(const char* key, long long dflt)
{
    const char* s = spec_str(key, nullptr);
    return s ? strtoll(s, nullptr, 0) : dflt;
}
double spec_dbl(const char* key, double dflt)
{
    const char* s = spec_str(key, nullptr);
    return s ? strtod(s, nullptr) : dflt;
}
size_t spec_count(const char* key)
{
    size_t n = 0;
    for (size_t i = 0; i < nspec; ++i) n += ! strcmp(spec[i].k, key);
    return n;
}
const char* spec_nth(const char* key, size_t k)
{
    for (size_t i = 0; i < nspec; ++i)
        if (! strcmp(spec[i].k, key) && k-- == 0) return spec[i].v;
    return nullptr;
}

uint64_t fault(Fault k, uint64_t range)
{
    if (! g.active || cur == nullptr || host_depth || finishing) return 0;
    FaultCfg& c = fc[k];
    const uint64_t idx = c.ops++;
    uint64_t arg = 0;
    for (size_t i = 0; i < nevs; ++i)
        if (evs[i].k == k && evs[i].idx == idx) { arg = evs[i].arg; break; }
    if (! arg && c.p > 0 && c.fired < c.max && frng.unit() < c.p) arg = 1 + frng.below(range);
    if (arg)
    {
        if (arg > range) arg = 1 + (arg - 1) % range;
        c.fired++;
        out("fault=%s@%llu:%llu\n", fault_name[k], static_cast<unsigned long long>(idx), static_cast<unsigned long long>(arg));
        hash_ev(0xFA17 + static_cast<uint64_t>(k), arg);
    }
    return arg;
}
bool fault_enabled(Fault k) { return fc[k].p > 0; }
Rng& work_rng() { return wrng; }

void out(const char* fmt, ...)
{
    char b[6000];
    va_list ap;
    va_start(ap, fmt);
    ++host_depth;
    const int n = vsnprintf(b, sizeof(b), fmt, ap);
    --host_depth;
    va_end(ap);
    if (n > 0) oput(b, static_cast<size_t>(n) < sizeof(b) ? static_cast<size_t>(n) : sizeof(b) - 1);
}
void note(const char* fmt, ...)
{
    char b[4000];
    va_list ap;
    va_start(ap, fmt);
    ++host_depth;
    const int n = vsnprintf(b, sizeof(b), fmt, ap);
    --host_depth;
    va_end(ap);
    for (int i = 0; i < n && i < 4000; ++i) g.hash = (g.hash ^ static_cast<uint8_t>(b[i])) * 0x100000001B3ull;
    out("note=%s\n", b);
}
void log_hash(uint64_t v) { hash_ev(0x10, v); }
void probe(const char* name, uint64_t n)
{
    for (int i = 0; i < nprobes; ++i)
        if (probes[i].name == name || ! strcmp(probes[i].name, name)) { probes[i].n += n; return; }
    if (nprobes < 128) probes[nprobes++] = { name, n };
}
void print_stack(const char* key, Thread* t)
{
    if (! t) return;
    char b[4000];
    int k = snprintf(b, sizeof(b), "%s=", key);
    const uint32_t d = t->depth < 256 ? t->depth : 256;
    for (uint32_t i = d; i > 0 && k < 3800; --i) k += snprintf(b + k, sizeof(b) - static_cast<size_t>(k), "%lx,", static_cast<unsigned long>(t->stack[i - 1]));
    out("%s\n", b);
}
void violation(const char* fmt, ...)
{
    if (ended) return;
    char b[3000];
    va_list ap;
    va_start(ap, fmt);
    ++host_depth;
    vsnprintf(b, sizeof(b), fmt, ap);
    --host_depth;
    va_end(ap);
    out("violation=%s\n", b);
    print_stack("violation_stack", cur);
    end_run("violation", 0);
}

[[noreturn]] void end_run(const char* outcome, int rc)
{
    if (ended) raw_syscall(SYS_exit_group, 97);
    ended = true;
    ++host_depth;
    uint64_t ln, lb;
    heap_counts(ln, lb);
    out("outcome=%s\nrc=%d\nhash=%016llx\nshash=%016llx\nev=%llu\nacc=%llu\nswitches=%llu\nsimtime_ns=%llu\nlive=%d\nlive_allocs=%llu\n", outcome, rc, static_cast<unsigned long long>(g.hash), static_cast<unsigned long long>(g.shash), static_cast<unsigned long long>(g.ev), static_cast<unsigned long long>(g.acc_base - g.acc_cd), static_cast<unsigned long long>(g.switches), static_cast<unsigned long long>(g.mono - 1000000000ull), g.live, static_cast<unsigned long long>(ln));
    for (int i = 0; i < F_N; ++i)
        if (fc[i].ops) out("ops=%s:%llu\n", fault_name[i], static_cast<unsigned long long>(fc[i].ops));
    for (int i = 0; i < nprobes; ++i) out("probe=%s:%llu\n", probes[i].name, static_cast<unsigned long long>(probes[i].n));
    out("races=%d\n", hb_races());
    if (spec_int("emit_devs", 0)) sched_report();
    const long fd = raw_syscall(SYS_open, result_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0;
    while (fd >= 0 && o < olen)
    {
        const long w = raw_syscall(SYS_write, fd, obuf + o, olen - o);
        if (w <= 0) break;
        o += static_cast<size_t>(w);
    }
    raw_syscall(SYS_close, fd);
    raw_syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void finish(int rc)
{
    if (cur != nullptr) fflush(nullptr);
    end_run("exit", rc);
}

void register_workload(const char* name, WorkloadFn fn)
{
    if (nwls < 64) wls[nwls++] = { name, fn };
}

namespace
{
void on_signal(int sig, siginfo_t* si, void*)
{
    if (ended) raw_syscall(SYS_exit_group, 96);
    ++host_depth;
    if (sig == SIGALRM) { end_run("timeout", 0); }
    const uintptr_t a = reinterpret_cast<uintptr_t>(si->si_addr);
    out("signal=%d addr=%s\n", sig, a < 4096 ? "null" : a >= HEAP_BASE && a < STACK_BASE ? "heap" : a >= STACK_BASE && a < STACK_END ? "stack" : "wild");
    if (cur) print_stack("crash_stack", cur);
    hash_ev(0x519, static_cast<uint64_t>(sig));
    --host_depth;
    end_run(sig == SIGABRT ? "abort" : "crash", 128 + sig);
}
void on_terminate()
{
    ++host_depth;
    std::type_info* t = abi::__cxa_current_exception_type();
    if (t)
    {
        int st;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        out("exception=%s\n", d ? d : t->name());
    }
    if (cur) print_stack("crash_stack", cur);
    --host_depth;
    end_run("abort", 134);
}
void at_exit_last(int status, void*)
{
    if (cur == nullptr) return;
    exit_code = status;
    finishing = true;
    fflush(nullptr);
    end_run("exit", exit_code);
}
__attribute__((constructor(101))) void first() { on_exit(at_exit_last, nullptr); } // runs after every other exit handler
WorkloadFn chosen = nullptr;
void* main_thread(void*)
{
    exit_code = chosen();
    exit(exit_code);
    return nullptr;
}

void run_child(char* text, const char* res)
{
    ++host_depth;
    result_path = res;
    parse_spec(text);
    memset(&g, 0, sizeof(g));
    g.mono = 1000000000ull;
    g.tick = static_cast<uint64_t>(spec_int("tick_ns", 150));
    g.wall_off = 1790000000ull * 1000000000ull;
    g.max_ev = static_cast<uint64_t>(spec_int("max_ev", 50000000));
    g.max_acc = static_cast<uint64_t>(spec_int("max_acc", 20000000000ll));
    g.ncpu = static_cast<int>(spec_int("ncpu", 4));
    g.par_degree = 1;
    g.watch = static_cast<uintptr_t>(strtoull(spec_str("watch", "0"), nullptr, 16));
    if (const char* tr = spec_str("pctrace", ""); *tr)
    {
        const int fd = open(tr, O_RDWR | O_CREAT | O_TRUNC, 0644);
        ftruncate(fd, 4ll << 30);
        g.trace = static_cast<uint32_t*>(mmap(nullptr, 4ull << 30, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        g.trace_stop = static_cast<uint64_t>(spec_int("trace_stop", 0));
    }
    setup_faults();
    alloc_seed(static_cast<uint64_t>(spec_int("alloc_seed", 0)));
    sched_setup();
    const char* w = spec_str("workload");
    for (int i = 0; i < nwls; ++i)
        if (! strcmp(wls[i].name, w)) chosen = wls[i].fn;
    if (! chosen)
    {
        out("outcome=error\nerror=unknown workload\n");
        end_run("error", 0);
    }
    g.hb = spec_int("hb", 1) != 0;
    if (g.hb) hb_init();
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    const int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
    for (int s : sigs) sigaction(s, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    alarm(static_cast<unsigned>(spec_int("wall_limit", 120)));
    std::set_terminate(on_terminate);
    const char* so = spec_str("stdout", "/dev/null");
    const int fd = static_cast<int>(raw_syscall(SYS_open, so, O_WRONLY | O_CREAT | O_TRUNC, 0644));
    if (fd >= 0) { raw_syscall(SYS_dup2, fd, 1); raw_syscall(SYS_dup2, fd, 2); raw_syscall(SYS_close, fd); }
    if (const char* cwd = spec_str("cwd", nullptr))
        if (chdir(cwd) != 0) { }
    // the engine's own environment
    for (size_t i = 0; i < spec_count("env"); ++i) putenv(const_cast<char*>(spec_nth("env", i)));
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    void* pc[4];
    backtrace(pc, 4); // allocates at the first call
    host_depth = 0;
    run_main(main_thread);
}

char* slurp(const char* path)
{
    const long fd = raw_syscall(SYS_open, path, O_RDONLY, 0);
    if (fd < 0) return nullptr;
    const off_t n = raw_syscall(SYS_lseek, fd, 0, SEEK_END);
    raw_syscall(SYS_lseek, fd, 0, SEEK_SET);
    char* b = static_cast<char*>(host_alloc(static_cast<size_t>(n) + 1));
    long o = 0;
    while (o < n)
    {
        const long r = raw_syscall(SYS_read, fd, b + o, n - o);
        if (r <= 0) break;
        o += r;
    }
    b[o] = 0;
    raw_syscall(SYS_close, fd);
    return b;
}
} // namespace
} // namespace sim

using namespace sim;
extern "C" char __libc_single_threaded;
int main(int argc, char** argv)
{
    // fixed address layout and environment
    const int pers = static_cast<int>(raw_syscall(SYS_personality, 0xffffffff));
    if (! (pers & ADDR_NO_RANDOMIZE) || getenv("SIM_CLEAN") == nullptr)
    {
        raw_syscall(SYS_personality, pers | ADDR_NO_RANDOMIZE);
        char* envp[] = { const_cast<char*>("SIM_CLEAN=1"), const_cast<char*>("TZ=UTC"), const_cast<char*>("LC_ALL=C"), const_cast<char*>("PATH=/usr/bin:/bin"), nullptr, nullptr };
        for (char** e = environ; *e; ++e)
            if (! strncmp(*e, "SIM_COV=", 8)) envp[4] = *e;
        execve("/proc/self/exe", argv, envp);
        return 95;
    }
    ++host_depth;
    __libc_single_threaded = 0;
    if (argc == 4 && ! strcmp(argv[1], "run"))
    {
        char* t = slurp(argv[2]);
        if (! t) return 94;
        run_child(t, argv[3]);
    }
    // server: each line on stdin is "<spec>\t<result>"; answers "done <status>\n"
    char line[8192];
    while (fgets(line, sizeof(line), stdin))
    {
        line[strcspn(line, "\n")] = 0;
        char* tab = strchr(line, '\t');
        if (! tab) continue;
        *tab = 0;
        const pid_t p = fork();
        if (p == 0)
        {
            char* t = slurp(line);
            if (! t) raw_syscall(SYS_exit_group, 94);
            run_child(t, tab + 1);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        char ans[64];
        const int n = snprintf(ans, sizeof(ans), "done %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
        raw_syscall(SYS_write, 1, ans, n);
    }
    return 0;
}
