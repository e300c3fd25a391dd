// Development aid (SIM_COV=FILE): every place of the code that any run reaches is marked in FILE, shared by all runs.
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C"
{
extern char __executable_start, etext;
static uint8_t* marks = nullptr;
__attribute__((constructor(102))) void sim_cov_init()
{
    const char* f = getenv("SIM_COV");
    if (! f) return;
    const int fd = open(f, O_RDWR | O_CREAT, 0644);
    const size_t n = static_cast<size_t>(&etext - &__executable_start) + 1;
    if (fd < 0 || ftruncate(fd, static_cast<off_t>(n)) != 0) return;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p != MAP_FAILED) marks = static_cast<uint8_t*>(p);
    close(fd);
}
void __sanitizer_cov_trace_pc()
{
    const uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - 1;
    const uintptr_t b = reinterpret_cast<uintptr_t>(&__executable_start);
    if (marks && pc >= b) marks[pc - b] = 1;
}
}
