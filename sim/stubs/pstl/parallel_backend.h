// Replaces libstdc++'s TBB backend of the parallel algorithms: parallel_for runs its chunks on real std::threads, which
// the simulator schedules; everything else is the serial backend (the engine uses only for_each-shaped algorithms).
#ifndef _PSTL_PARALLEL_BACKEND_H
#define _PSTL_PARALLEL_BACKEND_H
#include <cstddef>
#include <algorithm>
#include <memory>
#include <numeric>
#include <utility>
extern "C" void sim_par_run(std::size_t chunks, void (*fn)(void*, std::size_t), void* ctx);
extern "C" std::size_t sim_par_chunks(std::size_t n);
#define __parallel_for __sim_unused_parallel_for
#include <pstl/parallel_backend_serial.h>
#undef __parallel_for
namespace __pstl
{
namespace __serial_backend
{
template<class _ExecutionPolicy, class _Index, class _Fp>
void __parallel_for(_ExecutionPolicy&&, _Index __first, _Index __last, _Fp __f)
{
    const std::size_t __n = static_cast<std::size_t>(__last - __first);
    const std::size_t __chunks = sim_par_chunks(__n);
    if (__chunks <= 1)
    {
        __f(__first, __last);
        return;
    }
    struct _Ctx { _Index __first; std::size_t __n; std::size_t __chunks; _Fp* __f; } __c{ __first, __n, __chunks, &__f };
    sim_par_run(
        __chunks,
        [](void* __p, std::size_t __i)
        {
            _Ctx& __c = *static_cast<_Ctx*>(__p);
            (*__c.__f)(__c.__first + static_cast<std::ptrdiff_t>(__c.__n * __i / __c.__chunks), __c.__first + static_cast<std::ptrdiff_t>(__c.__n * (__i + 1) / __c.__chunks));
        },
        &__c);
}
} // namespace __serial_backend
namespace __par_backend = __serial_backend;
} // namespace __pstl
#endif
