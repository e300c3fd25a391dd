// Files: the engine's stdio and iostream calls run on the real libc code, over read/write/open/close/lseek operations
// at which the run's faults are injected. Only files below the run's own directory are subject to faults.
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{
namespace
{
constexpr int MAXFD = 1024;
struct Fd
{
    bool on;
    bool cookie;
    char role; // r input, w output
    FILE* fp;
};
Fd fds[MAXFD];
bool disk_full = false;
const char* faultdir = nullptr;

typedef FILE* (*fopen_t)(const char*, const char*);
typedef int (*fclose_t)(FILE*);
fopen_t real_fopen;
fclose_t real_fclose;
void ensure_real()
{
    if (real_fopen) return;
    ++host_depth;
    real_fopen = reinterpret_cast<fopen_t>(dlsym(RTLD_NEXT, "fopen"));
    real_fclose = reinterpret_cast<fclose_t>(dlsym(RTLD_NEXT, "fclose"));
    --host_depth;
}
long ret(long r)
{
    if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
    return r;
}
bool ours(const char* path)
{
    if (! in_sim()) return false;
    if (faultdir == nullptr) faultdir = spec_str("faultdir");
    return *faultdir && ! strncmp(path, faultdir, strlen(faultdir));
}
void kill_point()
{
    if (fault(F_KILL, 1)) end_run("killed", 137);
}
ssize_t do_read(int fd, void* b, size_t n)
{
    if (fd < 0 || fd >= MAXFD || ! fds[fd].on || ! in_sim()) return ret(raw_syscall(SYS_read, fd, b, n));
    probe("io_read");
    kill_point();
    if (fault(F_READ_EINTR, 1)) { errno = EINTR; return -1; }
    if (fault(F_READ_EIO, 1)) { errno = EIO; return -1; }
    if (n > 1)
        if (const uint64_t k = fault(F_READ_SHORT, 4096)) n = 1 + (k - 1) % (n - 1);
    const long r = ret(raw_syscall(SYS_read, fd, b, n));
    hash_ev(0x4EAD, static_cast<uint64_t>(r));
    return r;
}
ssize_t do_write(int fd, const void* b, size_t n)
{
    if (fd < 0 || fd >= MAXFD || ! fds[fd].on || ! in_sim()) return ret(raw_syscall(SYS_write, fd, b, n));
    probe("io_write");
    if (const uint64_t k = fault(F_KILL, 3))
    {
        const size_t m = k == 1 ? 0 : k == 2 ? n / 2 : n;
        if (m) raw_syscall(SYS_write, fd, b, m);
        end_run("killed", 137);
    }
    if (disk_full) { errno = ENOSPC; return -1; }
    if (const uint64_t k = fault(F_WRITE_ENOSPC, 4))
    {
        if (k & 1) disk_full = true;
        if (k & 2 && n > 1)
        {
            // the last free block takes a part of it
            disk_full = true;
            return ret(raw_syscall(SYS_write, fd, b, n / 2));
        }
        errno = ENOSPC;
        return -1;
    }
    if (fault(F_WRITE_EIO, 1)) { errno = EIO; return -1; }
    if (fault(F_WRITE_EINTR, 1)) { errno = EINTR; return -1; }
    if (n > 1)
        if (const uint64_t k = fault(F_WRITE_SHORT, 4096)) n = 1 + (k - 1) % (n - 1);
    const long r = ret(raw_syscall(SYS_write, fd, b, n));
    hash_ev(0x3417, static_cast<uint64_t>(r));
    return r;
}
off_t do_seek(int fd, off_t o, int w)
{
    if (fd >= 0 && fd < MAXFD && fds[fd].on && in_sim())
    {
        probe("io_seek");
        if (fault(F_SEEK_FAIL, 1)) { errno = EIO; return -1; }
    }
    return ret(raw_syscall(SYS_lseek, fd, o, w));
}
void register_fd(int fd, bool cookie, FILE* fp, bool writing)
{
    if (fd >= 0 && fd < MAXFD) fds[fd] = { true, cookie, writing ? 'w' : 'r', fp };
}
// closing reports what earlier writes did not: only for files that were written
bool close_fault(bool writing) { return in_sim() && writing && fault(F_CLOSE_EIO, 1); }
ssize_t ck_read(void* c, char* b, size_t n) { return do_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); }
ssize_t ck_write(void* c, const char* b, size_t n)
{
    // glibc treats anything short of n as an error; retry as its own file backend does
    size_t done = 0;
    while (done < n)
    {
        const ssize_t r = do_write(static_cast<int>(reinterpret_cast<intptr_t>(c)), b + done, n - done);
        if (r < 0) return static_cast<ssize_t>(done);
        done += static_cast<size_t>(r);
    }
    return static_cast<ssize_t>(done);
}
int ck_seek(void* c, off64_t* o, int w)
{
    const off_t r = do_seek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
int ck_close(void* c)
{
    const int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
    fds[fd].on = false;
    raw_syscall(SYS_close, fd);
    if (close_fault(fds[fd].role == 'w')) { errno = EIO; return -1; }
    return 0;
}
bool open_fault(const char* path)
{
    point("open");
    probe("io_open");
    (void)path;
    kill_point();
    if (fault(F_OPEN_FAIL, 1)) { errno = EMFILE; return true; }
    return false;
}
FILE* sim_fopen(const char* path, const char* mode, bool from_image)
{
    ensure_real();
    if (! ours(path)) { ++host_depth; FILE* f = real_fopen(path, mode); --host_depth; return f; }
    if (open_fault(path)) return nullptr;
    if (! from_image)
    {
        // iostreams: they use only the descriptor
        FILE* f = real_fopen(path, mode);
        if (f) register_fd(fileno(f), false, f, mode[0] != 'r' || strchr(mode, '+'));
        return f;
    }
    int flags = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') flags |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') flags |= O_CREAT | O_APPEND;
    const long fd = ret(raw_syscall(SYS_open, path, flags, 0666));
    if (fd < 0) return nullptr;
    struct stat st;
    if (raw_syscall(SYS_fstat, fd, &st) == 0 && S_ISDIR(st.st_mode) && mode[0] != 'r') { raw_syscall(SYS_close, fd); errno = EISDIR; return nullptr; }
    cookie_io_functions_t io{ ck_read, ck_write, ck_seek, ck_close };
    FILE* f = fopencookie(reinterpret_cast<void*>(fd), mode, io);
    if (f == nullptr) { raw_syscall(SYS_close, fd); return nullptr; }
    register_fd(static_cast<int>(fd), true, f, (flags & O_ACCMODE) != O_RDONLY);
    return f;
}
inline bool from_image(void* ra)
{
    const uintptr_t a = reinterpret_cast<uintptr_t>(ra);
    return a >= IMG_LO && a < IMG_HI;
}
} // namespace
} // namespace sim

using namespace sim;
extern "C" {
FILE* fopen(const char* p, const char* m) { return sim_fopen(p, m, from_image(__builtin_return_address(0))); }
FILE* fopen64(const char* p, const char* m) { return sim_fopen(p, m, from_image(__builtin_return_address(0))); }
int fclose(FILE* f)
{
    ensure_real();
    for (int i = 0; i < MAXFD; ++i)
        if (fds[i].on && ! fds[i].cookie && fds[i].fp == f)
        {
            fds[i].on = false;
            int r = real_fclose(f);
            if (in_sim()) { probe("io_close"); kill_point(); if (close_fault(fds[i].role == 'w')) { errno = EIO; r = EOF; } }
            return r;
        }
    return real_fclose(f);
}
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (fd < 0 || fd >= MAXFD || ! fds[fd].on || ! in_sim()) return ret(raw_syscall(SYS_writev, fd, v, n));
    ssize_t total = 0;
    for (int i = 0; i < n; ++i)
    {
        if (v[i].iov_len == 0) continue;
        const ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : -1;
        total += r;
        if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return total;
}
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return do_seek(fd, o, w); }
int open(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const int mode = va_arg(ap, int);
    va_end(ap);
    const bool mine = ours(p);
    if (mine && open_fault(p)) return -1;
    const int fd = static_cast<int>(ret(raw_syscall(SYS_open, p, flags, mode)));
    if (mine && fd >= 0) register_fd(fd, false, nullptr, (flags & O_ACCMODE) != O_RDONLY);
    return fd;
}
int open64(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    const int mode = va_arg(ap, int);
    va_end(ap);
    return open(p, flags, mode);
}
int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && fds[fd].on && fds[fd].fp == nullptr)
    {
        fds[fd].on = false;
        ret(raw_syscall(SYS_close, fd));
        if (close_fault(fds[fd].role == 'w')) { errno = EIO; return -1; }
        return 0;
    }
    return static_cast<int>(ret(raw_syscall(SYS_close, fd)));
}
}
