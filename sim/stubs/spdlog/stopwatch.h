// spdlog 1.12's stopwatch with the elapsed_ms of later versions (the engine is written against those).
#ifndef SIM_STUB_SPDLOG_STOPWATCH_H
#define SIM_STUB_SPDLOG_STOPWATCH_H
#include <chrono>
#include <spdlog/fmt/fmt.h>
namespace spdlog
{
class stopwatch
{
    using clock = std::chrono::steady_clock;
    std::chrono::time_point<clock> start_tp_;
public:
    stopwatch() : start_tp_{ clock::now() } {}
    std::chrono::duration<double> elapsed() const { return std::chrono::duration<double>(clock::now() - start_tp_); }
    std::chrono::milliseconds elapsed_ms() const { return std::chrono::duration_cast<std::chrono::milliseconds>(clock::now() - start_tp_); }
    void reset() { start_tp_ = clock::now(); }
};
} // namespace spdlog
template<>
struct fmt::formatter<spdlog::stopwatch> : fmt::formatter<double>
{
    template<typename C>
    auto format(const spdlog::stopwatch& sw, C& ctx) const -> decltype(ctx.out()) { return fmt::formatter<double>::format(sw.elapsed().count(), ctx); }
};
#endif
