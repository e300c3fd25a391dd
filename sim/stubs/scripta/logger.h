// Stand-in for scripta (a debug visualiser, absent here): every call is a no-op.
#ifndef SIM_STUB_SCRIPTA_LOGGER_H
#define SIM_STUB_SCRIPTA_LOGGER_H
#include <spdlog/spdlog.h> // the real header pulls these in, and the engine relies on that
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <string>
namespace scripta
{
template<typename... A>
struct CellVDI
{
    template<typename... B>
    CellVDI(B&&...) {}
};
template<typename... A>
CellVDI(A&&...) -> CellVDI<>;
template<typename... A>
struct PointVDI
{
    template<typename... B>
    PointVDI(B&&...) {}
};
template<typename... A>
PointVDI(A&&...) -> PointVDI<>;
template<typename... A>
inline void log(A&&...) {}
template<typename... A>
inline void setAll(A&&...) {}
} // namespace scripta
#endif
