// Stand-in for tbb::global_control: sets the parallelism of the simulated parallel-algorithms backend.
#ifndef SIM_STUB_TBB_GLOBAL_CONTROL_H
#define SIM_STUB_TBB_GLOBAL_CONTROL_H
#include <cstddef>
extern "C" void sim_set_par_degree(std::size_t n);
extern "C" std::size_t sim_par_degree(void);
namespace tbb
{
class global_control
{
    std::size_t old_;
public:
    enum parameter { max_allowed_parallelism, thread_stack_size };
    global_control(parameter, std::size_t n) : old_(sim_par_degree()) { sim_set_par_degree(n); }
    ~global_control() { sim_set_par_degree(old_); }
};
} // namespace tbb
#endif
