// Stand-in for mapbox wagyu (absent here): the union of rings, computed by the Clipper library that is present.
#ifndef SIM_STUB_WAGYU_HPP
#define SIM_STUB_WAGYU_HPP
#include <polyclipping/clipper.hpp>
#include <vector>
namespace mapbox::geometry
{
template<typename T>
struct point { T x; T y; };
template<typename T>
using linear_ring = std::vector<point<T>>;
template<typename T>
using polygon = std::vector<linear_ring<T>>;
template<typename T>
using multi_polygon = std::vector<polygon<T>>;
namespace wagyu
{
enum clip_type { clip_type_union };
enum fill_type { fill_type_even_odd };
template<typename T>
class wagyu
{
    ClipperLib::Paths paths_;
public:
    void add_ring(const linear_ring<T>& r)
    {
        ClipperLib::Path p;
        for (const auto& q : r) p.emplace_back(q.x, q.y);
        paths_.push_back(std::move(p));
    }
    void execute(clip_type, multi_polygon<T>& out, fill_type, fill_type)
    {
        ClipperLib::Clipper c;
        c.StrictlySimple(true);
        c.AddPaths(paths_, ClipperLib::ptSubject, true);
        ClipperLib::Paths res;
        c.Execute(ClipperLib::ctUnion, res, ClipperLib::pftEvenOdd, ClipperLib::pftEvenOdd);
        out.emplace_back();
        for (const auto& p : res)
        {
            if (p.size() < 3) continue;
            linear_ring<T> r;
            for (const auto& q : p) r.push_back({ q.X, q.Y });
            r.push_back(r.front()); // wagyu closes its rings
            out.back().push_back(std::move(r));
        }
    }
};
} // namespace wagyu
} // namespace mapbox::geometry
#endif
