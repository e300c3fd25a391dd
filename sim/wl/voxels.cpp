// Painted voxels. Real: VoxelGrid.cpp, SpatialLookup.cpp, PlanarPolygon3LL, Segment3LL, ThreadPool, boost's concurrent map.
#include "../rt/sim.h"
#include "Application.h"
#include "utils/AABB3D.h"
#include "utils/SpatialLookup.h"
#include "utils/ThreadPool.h"
#include "utils/VoxelGrid.h"
#include <cstdio>
#include <map>

using namespace cura;
extern "C" void sim_set_par_degree(std::size_t n);

namespace
{
using Local = VoxelGrid::LocalCoordinates;
uint64_t R(uint64_t n) { return sim::work_rng().below(n); }
coord_t RR(coord_t a, coord_t b) { return a + static_cast<coord_t>(R(static_cast<uint64_t>(b - a + 1))); }

struct Write
{
    Local at;
    uint8_t value;
};

double distance2(const Point3D& a, const Point3D& b)
{
    double dx = a.x_ - b.x_, dy = a.y_ - b.y_, dz = a.z_ - b.z_;
    return dx * dx + dy * dy + dz * dz;
}
} // namespace

// workers=<n>  threads of the pool
SIM_WORKLOAD(voxels)
{
    auto& app = Application::getInstance();
    const int workers = static_cast<int>(sim::spec_int("workers", 3));
    app.startThreadPool(workers);
    sim_set_par_degree(static_cast<size_t>(workers));

    const coord_t res = RR(2, 20) * 100;
    const Point3LL lo(RR(-50000, 50000), RR(-50000, 50000), RR(0, 5000));
    AABB3D box(lo, lo + Point3LL(RR(1, 12) * res + RR(0, res - 1), RR(1, 12) * res + RR(0, res - 1), RR(1, 6) * res + RR(0, res - 1)));
    VoxelGrid grid(box, res);
    const Point3LL n = grid.getSlicesCount();
    if (grid.getResolution().x_ > res || grid.getResolution().y_ > res || grid.getResolution().z_ > res) sim::violation("the grid is coarser than asked for");

    // ---- filling
    std::vector<Write> writes;
    const size_t nw = R(6) ? 1 + R(40) : R(300);
    const bool clustered = R(2);
    for (size_t i = 0; i < nw; ++i)
    {
        Local at(static_cast<uint16_t>(R(clustered ? std::min<coord_t>(n.x_, 3) : n.x_)), static_cast<uint16_t>(R(clustered ? std::min<coord_t>(n.y_, 3) : n.y_)), static_cast<uint16_t>(R(n.z_)));
        writes.push_back({ at, static_cast<uint8_t>(R(R(2) ? 3 : 250)) });
    }
    std::map<Local, uint8_t> model;
    for (const Write& w : writes)
    {
        auto [it, fresh] = model.insert({ w.at, w.value });
        if (! fresh) it->second = std::min(it->second, w.value);
    }
    sim::probe(model.size() < writes.size() ? "voxels written more than once" : "distinct voxels");
    const size_t chunk = R(3) ? 1 : 1 + R(8);
    if (! writes.empty()) parallel_for<size_t>(0, writes.size(), [&](size_t i) { grid.setOrUpdateOccupation(writes[i].at, writes[i].value); }, chunk);
    const auto compare = [&](const char* when)
    {
        if (grid.occupiedCount() != model.size()) sim::violation("%s: %zu voxels are occupied, %zu were set", when, grid.occupiedCount(), model.size());
        for (const auto& [at, value] : model)
        {
            const auto got = grid.getOccupation(at);
            if (! got) sim::violation("%s: voxel %d,%d,%d was set and is lost", when, at.position.x, at.position.y, at.position.z);
            if (*got != value) sim::violation("%s: voxel %d,%d,%d holds %d instead of %d", when, at.position.x, at.position.y, at.position.z, *got, value);
            if (! grid.hasOccupation(at)) sim::violation("%s: voxel %d,%d,%d has a value and is not occupied", when, at.position.x, at.position.y, at.position.z);
        }
        for (int i = 0; i < 10; ++i)
        {
            Local at(static_cast<uint16_t>(R(n.x_ + 1)), static_cast<uint16_t>(R(n.y_ + 1)), static_cast<uint16_t>(R(n.z_ + 1)));
            if (grid.hasOccupation(at) != model.contains(at) || grid.getOccupation(at).has_value() != model.contains(at)) sim::violation("%s: voxel %d,%d,%d was invented", when, at.position.x, at.position.y, at.position.z);
        }
    };
    compare("after filling");

    // ---- more writes, of distinct voxels, while others read what is there
    if (R(2))
    {
        std::vector<Write> more;
        std::map<Local, uint8_t> next = model;
        std::map<Local, int> mine;
        for (int i = 0; i < 20; ++i)
        {
            Local at(static_cast<uint16_t>(R(n.x_)), static_cast<uint16_t>(R(n.y_)), static_cast<uint16_t>(R(n.z_)));
            if (mine[at]++) continue;
            more.push_back({ at, static_cast<uint8_t>(R(250)) });
            next.insert_or_assign(at, more.back().value);
        }
        parallel_for<size_t>(
            0,
            more.size() * 2,
            [&](size_t i)
            {
                if (i < more.size())
                {
                    grid.setOccupation(more[i].at, more[i].value);
                    const auto got = grid.getOccupation(more[i].at);
                    if (! got || *got != more[i].value) sim::violation("a value just set reads as %d", got ? *got : -1);
                    return;
                }
                const Local at = more[i - more.size()].at;
                const auto got = grid.getOccupation(at);
                const auto was = model.find(at);
                const uint8_t will = next.find(at)->second;
                if (! got ? was != model.end() : (*got != will && (was == model.end() || *got != was->second))) sim::violation("a voxel being set reads as %d", got ? *got : -1);
            },
            R(2) ? 1 : 3);
        model = next;
        compare("after setting");
    }

    // ---- visiting: each once
    std::map<Local, int> visits;
    for (const auto& [at, value] : model) visits[at] = 0;
    std::atomic<int> strangers{ 0 }, wrong{ 0 };
    std::vector<std::pair<Local, std::atomic<int>>> count;
    {
        std::map<Local, std::unique_ptr<std::atomic<int>>> cnt;
        for (const auto& [at, value] : model) cnt[at] = std::make_unique<std::atomic<int>>(0);
        const auto visit = [&](const auto& v)
        {
            auto it = cnt.find(v.first);
            if (it == cnt.end()) { ++strangers; return; }
            if (model.find(v.first)->second != v.second) ++wrong;
            ++*it->second;
        };
        if (R(2)) grid.visitOccupiedVoxels(visit);
        else std::as_const(grid).visitOccupiedVoxels(visit);
        if (strangers) sim::violation("%d voxels visited that were never set", strangers.load());
        if (wrong) sim::violation("%d voxels visited with other values than they have", wrong.load());
        for (const auto& [at, c] : cnt)
            if (*c != 1) sim::violation("voxel %d,%d,%d is visited %d times", at.position.x, at.position.y, at.position.z, c->load());
    }

    // ---- surroundings
    for (int i = 0; i < 6; ++i)
    {
        const Local at(static_cast<uint16_t>(R(n.x_)), static_cast<uint16_t>(R(n.y_)), static_cast<uint16_t>(R(n.z_)));
        std::map<Local, int> around;
        for (const Local& l : grid.getVoxelsAround(at)) ++around[l];
        size_t want = 0;
        for (int dx = -1; dx < 2; ++dx)
            for (int dy = -1; dy < 2; ++dy)
                for (int dz = -1; dz < 2; ++dz)
                {
                    const int x = at.position.x + dx, y = at.position.y + dy, z = at.position.z + dz;
                    if ((! dx && ! dy && ! dz) || x < 0 || y < 0 || z < 0 || x >= n.x_ || y >= n.y_ || z >= n.z_) continue;
                    ++want;
                    if (around[Local(static_cast<uint16_t>(x), static_cast<uint16_t>(y), static_cast<uint16_t>(z))] != 1) sim::violation("voxel %d,%d,%d is a neighbour of %d,%d,%d and not among them once", x, y, z, at.position.x, at.position.y, at.position.z);
                }
        if (around.size() != want) sim::violation("%zu voxels around %d,%d,%d instead of %zu", around.size(), at.position.x, at.position.y, at.position.z, want);
        const Local back = grid.toLocalCoordinates(grid.toGlobalCoordinates(at));
        if (back != at) sim::violation("the middle of voxel %d,%d,%d lies in voxel %d,%d,%d", at.position.x, at.position.y, at.position.z, back.position.x, back.position.y, back.position.z);
    }

    // ---- nearest painted voxel: as a plain search finds it, and the same as in a grid filled one by one in another order
    const SpatialLookup lookup = SpatialLookup::makeSpatialLookupFromVoxelGrid(grid);
    app.startThreadPool(1);
    sim_set_par_degree(1);
    VoxelGrid other(box, res);
    {
        std::vector<Write> all;
        for (const auto& [at, value] : model) all.push_back({ at, value });
        for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[R(i)]);
        for (const Write& w : all) other.setOccupation(w.at, w.value);
    }
    const SpatialLookup alone = SpatialLookup::makeSpatialLookupFromVoxelGrid(other);
    app.startThreadPool(workers);
    sim_set_par_degree(static_cast<size_t>(workers));
    std::vector<Point3D> asked;
    for (int i = 0; i < 24; ++i)
    {
        const Local at(static_cast<uint16_t>(R(n.x_)), static_cast<uint16_t>(R(n.y_)), static_cast<uint16_t>(R(n.z_)));
        if (R(3)) asked.push_back(grid.toGlobalCoordinates(at, R(4) != 0));
        else asked.push_back(Point3D(RR(box.min_.x_ - res, box.max_.x_ + res), RR(box.min_.y_ - res, box.max_.y_ + res), RR(box.min_.z_ - res, box.max_.z_ + res)));
    }
    std::vector<std::optional<OccupiedPosition>> found(asked.size());
    parallel_for<size_t>(0, asked.size(), [&](size_t i) { found[i] = lookup.findClosestOccupation(asked[i]); });
    for (size_t i = 0; i < asked.size(); ++i)
    {
        const auto& f = found[i];
        if (f.has_value() == model.empty()) sim::violation("%s among %zu voxels", f ? "something found" : "nothing found", model.size());
        if (! f) continue;
        double best = 1e300;
        int ties = 0;
        bool real = false;
        for (const auto& [at, value] : model)
        {
            const Point3D p = grid.toGlobalCoordinates(at);
            const double d = distance2(p, asked[i]);
            if (d < best * (1 - 1e-12)) best = d, ties = 0;
            if (d <= best * (1 + 1e-12)) ++ties;
            real |= p.x_ == f->position.x_ && p.y_ == f->position.y_ && p.z_ == f->position.z_ && value == f->occupation;
        }
        if (ties > 1) sim::probe("several equally near");
        if (! real) sim::violation("the nearest voxel found was never set to %d", f->occupation);
        if (distance2(f->position, asked[i]) > best * (1 + 1e-9) + 1e-9) sim::violation("the voxel found is at a distance of %.3f, the nearest at %.3f", std::sqrt(distance2(f->position, asked[i])), std::sqrt(best));
        const auto a = alone.findClosestOccupation(asked[i]);
        if (! a || a->occupation != f->occupation || a->position.x_ != f->position.x_ || a->position.y_ != f->position.y_ || a->position.z_ != f->position.z_)
            sim::violation("of %d equally near voxels another one is found when the grid is filled in another order", ties);
        sim::log_hash(static_cast<uint64_t>(f->position.x_) * 31 + f->occupation);
    }

    // ---- voxels of a triangle: those its points lie in, each once, none far from it; the same from any thread
    for (int k = 0; k < 4; ++k)
    {
        std::array<Point3LL, 3> p;
        for (Point3LL& q : p) q = Point3LL(RR(box.min_.x_, box.max_.x_ - 1), RR(box.min_.y_, box.max_.y_ - 1), RR(box.min_.z_, box.max_.z_ - 1));
        if (R(4) == 0) p[2].z_ = p[1].z_ = p[0].z_;
        if (R(4) == 0) p[2].x_ = p[0].x_;
        const Triangle3LL t{ p[0], p[1], p[2] };
        std::vector<std::vector<Local>> got(3);
        parallel_for<size_t>(0, 3, [&](size_t i) { got[i] = grid.getTraversedVoxels(t); });
        if (got[0] != got[1] || got[0] != got[2]) sim::violation("a triangle gives other voxels in other threads");
        std::map<Local, int> m;
        for (const Local& l : got[0])
            if (m[l]++) sim::violation("voxel %d,%d,%d appears more than once for a triangle", l.position.x, l.position.y, l.position.z);
        const Point3D r = grid.getResolution();
        for (int s = 0; s < 60; ++s)
        {
            double u = sim::work_rng().unit(), v = sim::work_rng().unit();
            if (u + v > 1) u = 1 - u, v = 1 - v;
            const Point3D x(p[0].x_ + u * (p[1].x_ - p[0].x_) + v * (p[2].x_ - p[0].x_), p[0].y_ + u * (p[1].y_ - p[0].y_) + v * (p[2].y_ - p[0].y_), p[0].z_ + u * (p[1].z_ - p[0].z_) + v * (p[2].z_ - p[0].z_));
            const Local at = grid.toLocalCoordinates(x);
            const Point3D mid = grid.toGlobalCoordinates(at);
            const double inner = 0.5 - 20.0 / std::min({ r.x_, r.y_, r.z_ });
            if (std::abs(x.x_ - mid.x_) > inner * r.x_ || std::abs(x.y_ - mid.y_) > inner * r.y_ || std::abs(x.z_ - mid.z_) > inner * r.z_) continue; // too close to a side
            sim::probe("points of triangles");
            if (! m.contains(at)) sim::violation("a triangle passes through voxel %d,%d,%d, which is missing", at.position.x, at.position.y, at.position.z);
        }
    }
    app.startThreadPool(1);
    return 0;
}
