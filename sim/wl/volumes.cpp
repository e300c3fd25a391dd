// Collision data for tree supports. Real: TreeModelVolumes.cpp, ThreadPool, Shape and clipper operations, Simplify, Settings, SliceDataStorage.
#include "../rt/sim.h"
#include "Application.h"
#include "Slice.h"
#include "TreeModelVolumes.h"
#include "TreeSupportSettings.h"
#include "communication/Communication.h"
#include "mesh.h"
#include "progress/Progress.h"
#include "sliceDataStorage.h"
#include "utils/ThreadPool.h"
#include <algorithm>
#include <cstdio>
#include <cstring>

// the engine behind Scene, never called here
extern "C" char _ZN4cura12FffProcessor8instanceE[65536];
char _ZN4cura12FffProcessor8instanceE[65536];

using namespace cura;

namespace
{
uint64_t R(uint64_t n) { return sim::work_rng().below(n); }
coord_t RR(coord_t a, coord_t b) { return a + static_cast<coord_t>(R(static_cast<uint64_t>(b - a + 1))); }

struct Silent : public Communication
{
    bool hasSlice() const override { return false; }
    void sendProgress(double) const override {}
    void sendLayerComplete(const LayerIndex::value_type&, const coord_t&, const coord_t&) override {}
    void sendLineTo(const PrintFeatureType&, const Point3LL&, const coord_t&, const coord_t&, const Velocity&) override {}
    void sendCurrentPosition(const Point3LL&) override {}
    void setExtruderForSend(const ExtruderTrain&) override {}
    void setLayerForSend(const LayerIndex::value_type&) override {}
    void sendOptimizedLayerData() override {}
    void sendPrintInformation(const std::vector<Duration>&, const PrintInformation&) const override {}
    void sendGCodePart(const std::string&) override {}
    void sendSliceUUID(const std::string&) const override {}
    void sendFinishedSlicing() const override {}
    void sliceNext() override {}
};

Polygon rectangle(coord_t x, coord_t y, coord_t w, coord_t d, bool hole = false)
{
    Polygon p;
    if (hole)
        for (auto [a, b] : { std::pair{ x, y }, { x, y + d }, { x + w, y + d }, { x + w, y } }) p.push_back(Point2LL(a, b));
    else
        for (auto [a, b] : { std::pair{ x, y }, { x + w, y }, { x + w, y + d }, { x, y + d } }) p.push_back(Point2LL(a, b));
    return p;
}

struct Request
{
    char kind; // C collision, H collision without holes, A avoidance, P placeable, W wall restriction, G accumulated placeable
    coord_t radius;
    LayerIndex layer;
    AvoidanceType type;
    bool to_model, min_xy;
};

const Shape& ask(TreeModelVolumes& v, const Request& r)
{
    switch (r.kind)
    {
    case 'C': return v.getCollision(r.radius, r.layer, r.min_xy);
    case 'H': return v.getCollisionHolefree(r.radius, r.layer, r.min_xy);
    case 'A': return v.getAvoidance(r.radius, r.layer, r.type, r.to_model, r.min_xy);
    case 'P': return v.getPlaceableAreas(r.radius, r.layer);
    case 'W': return v.getWallRestriction(r.radius, r.layer, r.min_xy);
    default: return v.getAccumulatedPlaceable0(r.layer);
    }
}

std::string name(const Request& r)
{
    char b[160];
    snprintf(b, sizeof b, "%c radius %lld layer %d type %d%s%s", r.kind, static_cast<long long>(r.radius), static_cast<int>(r.layer), static_cast<int>(r.type), r.to_model ? " to model" : "", r.min_xy ? " min xy" : "");
    return b;
}

// exactly the same points in the same order
bool same(const Shape& a, const Shape& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (a[i].size() != b[i].size()) return false;
        for (size_t j = 0; j < a[i].size(); ++j)
            if (a[i][j] != b[i][j]) return false;
    }
    return true;
}
} // namespace

// settings=<path>   key=value lines, the defaults
// workers=<n>       threads of the pool while requests run
SIM_WORKLOAD(volumes)
{
    auto& app = Application::getInstance();
    app.communication_ = std::make_shared<Silent>();
    app.startThreadPool(1);
    Progress::init();
    app.current_slice_ = std::make_shared<Slice>(1);
    Scene& scene = app.current_slice_->scene;
    scene.current_mesh_group = scene.mesh_groups.begin();
    {
        FILE* f = fopen(sim::spec_str("settings"), "r");
        if (! f) sim::violation("no settings");
        char line[4096];
        while (fgets(line, sizeof line, f))
        {
            line[strcspn(line, "\n")] = 0;
            if (char* eq = strchr(line, '=')) *eq = 0, scene.settings.add(line, eq + 1);
        }
        fclose(f);
    }
    MeshGroup& group = scene.mesh_groups[0];
    group.settings.setParent(&scene.settings);
    auto mm = [](coord_t um) { return std::to_string(um / 1000.0); };
    const coord_t layer_height = RR(1, 3) * 100;
    const bool everywhere = R(4) != 0;
    Settings& S = scene.settings;
    S.add("machine_width", "60");
    S.add("machine_depth", "60");
    S.add("machine_center_is_zero", "false");
    S.add("layer_height", mm(layer_height));
    S.add("support_type", everywhere ? "everywhere" : "buildplate");
    S.add("support_tree_rest_preference", R(2) ? "graceful" : "buildplate");
    S.add("support_xy_distance", mm(RR(2, 12) * 100));
    S.add("support_xy_distance_overhang", mm(RR(0, 6) * 100));
    S.add("support_xy_overrides_z", R(3) ? "z_overrides_xy" : "xy_overrides_z");
    S.add("support_top_distance", mm(RR(0, 4) * layer_height / 2));
    S.add("support_bottom_distance", mm(RR(0, 4) * layer_height / 2));
    S.add("support_tree_tip_diameter", mm(RR(4, 12) * 100));
    S.add("support_tree_branch_diameter", mm(RR(12, 50) * 100));
    S.add("support_tree_bp_diameter", mm(RR(20, 80) * 100));
    S.add("support_tree_max_diameter", mm(RR(60, 250) * 100));
    const int layers = static_cast<int>(RR(3, 9));
    std::vector<Mesh> meshes;
    meshes.reserve(3);
    auto storage = std::make_unique<SliceDataStorage>();
    storage->support.supportLayers.resize(layers);
    const int n_mesh = 1 + static_cast<int>(R(3) ? R(2) : 2);
    for (int m = 0; m < n_mesh; ++m)
    {
        meshes.emplace_back(group.settings);
        if (m && R(2))
        {
            meshes.back().settings_.add("support_xy_distance", mm(RR(2, 12) * 100));
            meshes.back().settings_.add("support_top_distance", mm(RR(0, 4) * layer_height / 2));
        }
        auto s = std::make_shared<SliceMeshStorage>(&meshes.back(), layers);
        const int blocks = 1 + static_cast<int>(R(4));
        std::vector<Shape> outline(layers);
        for (int b = 0; b < blocks; ++b)
        {
            const coord_t w = RR(2000, 16000), d = RR(2000, 16000), x = RR(5000, 40000), y = RR(5000, 40000), grow = R(2) ? RR(-300, 600) : 0;
            const int z0 = static_cast<int>(R(3) ? 0 : R(layers)), z1 = R(3) == 0 ? layers : z0 + 1 + static_cast<int>(R(layers - z0));
            const bool hole = w > 6000 && d > 6000 && R(2);
            for (int z = z0; z < z1; ++z)
            {
                const coord_t g = grow * (z - z0);
                if (w + 2 * g < 500 || d + 2 * g < 500) break;
                Shape one;
                one.push_back(rectangle(x - g, y - g, w + 2 * g, d + 2 * g));
                if (hole) one.push_back(rectangle(x + 1500, y + 1500, w - 3000, d - 3000, true));
                outline[z] = outline[z].unionPolygons(one);
            }
        }
        for (int z = 0; z < layers; ++z)
        {
            s->layers[z].printZ = (z + 1) * layer_height;
            s->layers[z].thickness = layer_height;
            for (const SingleShape& part : outline[z].splitIntoParts())
            {
                s->layers[z].parts.emplace_back();
                s->layers[z].parts.back().outline = part;
                s->layers[z].parts.back().print_outline = part;
            }
            if (! outline[z].empty()) s->layer_nr_max_filled_layer = z;
        }
        storage->meshes.push_back(s);
    }
    if (R(3) == 0) // support blockers
        for (int z = static_cast<int>(R(layers)); z < layers; ++z)
            if (R(3)) storage->support.supportLayers[z].anti_overhang.push_back(rectangle(RR(5000, 40000), RR(5000, 40000), RR(2000, 15000), RR(2000, 15000)));

    size_t filled = 0;
    for (const auto& s : storage->meshes)
        for (const SliceLayer& l : s->layers) filled += ! l.getOutlines().empty();
    if (! filled) sim::violation("no model");
    const TreeSupportSettings config(storage->meshes[0]->settings);
    const coord_t move = RR(150, 900), move_slow = RR(60, move), step = RR(50, 400);
    auto fresh = [&]() { return TreeModelVolumes(*storage, move, move_slow, step, 0, 1.0, 0.0); };
    const bool precalc = R(5) < 2;
    const coord_t max_layer = precalc ? RR(layers - 1 - static_cast<int>(R(2)), layers - 1) : 0;

    // the requests
    std::vector<coord_t> radii;
    for (int i = 0; i < 3; ++i) radii.push_back(R(2) ? config.getRadius(R(2 * layers)) : RR(100, 5000));
    std::vector<Request> requests;
    const int n_req = 2 + static_cast<int>(R(10));
    const char focus = R(2) ? "CHAAPWWG"[R(8)] : 0; // many requests to one cache
    for (int i = 0; i < n_req; ++i)
    {
        Request r{ "CCHAAAAPWG"[R(10)], radii[R(radii.size())], static_cast<int>(R(layers)), AvoidanceType::FAST, false, R(2) == 0 };
        r.type = std::array{ AvoidanceType::FAST, AvoidanceType::SLOW, AvoidanceType::FAST_SAFE, AvoidanceType::COLLISION }[R(4)];
        r.to_model = everywhere && R(2);
        if (focus && R(5)) r.kind = focus;
        if (focus && R(3)) r.radius = radii[0];
        if (focus == 'A' && R(3)) r.type = AvoidanceType::SLOW;
        if (r.kind == 'C' && R(4) == 0) r.radius = 0;
        if (! everywhere && (r.kind == 'P' || r.kind == 'G')) r.kind = 'C'; // areas on the model are not part of this kind of support
        if (! everywhere && r.type == AvoidanceType::COLLISION) r.type = AvoidanceType::FAST;
        if ((r.kind == 'G' || r.kind == 'W') && r.layer == 0) r.layer = 1;
        requests.push_back(r);
        if (R(4) == 0 && i) // the same area once more, or the one above or below
        {
            r.layer = std::min(layers - 1, std::max((r.kind == 'G' || r.kind == 'W') ? 1 : 0, static_cast<int>(r.layer) + static_cast<int>(R(3)) - 1));
            requests.push_back(r);
        }
    }
    if (R(5) < 2) // one kind of area for one radius, layer by layer up, down or in any order
    {
        Request base = requests[0];
        requests.clear();
        const int order = static_cast<int>(R(3)), least = (base.kind == 'G' || base.kind == 'W') ? 1 : 0;
        for (int z = least; z < layers; ++z)
            if (R(4)) base.layer = z, requests.push_back(base);
        if (requests.empty()) base.layer = layers - 1, requests.push_back(base);
        if (order == 1) std::reverse(requests.begin(), requests.end());
        if (order == 2)
            for (size_t i = requests.size(); i > 1; --i) std::swap(requests[i - 1], requests[R(i)]);
        if (R(3) == 0) // what it depends on is there already
        {
            base.kind = 'C';
            base.layer = layers - 1;
            base.radius = R(2) ? base.radius : 0;
            requests.insert(requests.begin(), base);
        }
        sim::probe("layer by layer");
    }
    for (const auto& r : requests) sim::probe(r.kind == 'A' ? "avoidances" : r.kind == 'C' ? "collisions" : "others");

    // what they are, one by one and each from scratch
    std::vector<Shape> expected;
    {
        std::unique_ptr<TreeModelVolumes> ref;
        const bool top_first = R(2); // the collisions all else is made of at once, or layer by layer as they are needed
        if (top_first) sim::probe("collisions first");
        for (Request r : requests)
        {
            if (! ref || ! precalc)
            {
                ref = std::make_unique<TreeModelVolumes>(fresh());
                if (precalc) ref->precalculate(max_layer);
                else if (top_first)
                    for (const coord_t radius : { r.radius, coord_t(0), config.increase_radius_until_radius })
                        for (const bool min_xy : { false, true }) ref->getCollision(radius, layers - 1, min_xy);
            }
            expected.push_back(ask(*ref, r));
        }
    }
    for (size_t i = 0; i < requests.size(); ++i) sim::log_hash(expected[i].size() * 31 + expected[i].pointCount());

    // concurrently from one instance
    app.startThreadPool(static_cast<int>(sim::spec_int("workers", 3)));
    auto v = std::make_unique<TreeModelVolumes>(fresh());
    if (precalc) v->precalculate(max_layer), sim::probe("precalculated");
    const bool concurrent = sim::spec_int("concurrent", 1);
    sim::probe(concurrent ? "concurrent" : "in order");
    std::vector<Shape> got(requests.size());
    auto one = [&](size_t i) { got[i] = ask(*v, requests[i]); };
    if (concurrent)
        parallel_for<size_t>(0, requests.size(), one);
    else
        for (size_t i = 0; i < requests.size(); ++i) one(i);
    for (size_t i = 0; i < requests.size(); ++i)
        if (! same(got[i], expected[i]))
            sim::violation("%s gives %zu polygons with %zu points and area %.0f, on its own %zu with %zu and %.0f", name(requests[i]).c_str(), got[i].size(), got[i].pointCount(), got[i].area(), expected[i].size(), expected[i].pointCount(), expected[i].area());
    // later requests still give the same, and what was returned before is unchanged
    for (int k = 0; k < 3; ++k)
    {
        const size_t i = R(requests.size());
        const Shape& later = ask(*v, requests[i]);
        if (! same(later, expected[i])) sim::violation("%s is different when it is requested again", name(requests[i]).c_str());
    }
    // calculated in advance or on demand: the same for the radius that stands for the requested one
    if (precalc)
    {
        for (size_t i = 0; i < requests.size(); ++i)
        {
            Request r = requests[i];
            if (r.kind == 'H' || r.kind == 'G' || (r.kind == 'A' && (r.type == AvoidanceType::SLOW || r.type == AvoidanceType::FAST_SAFE))) continue; // depend on further radii
            if (r.radius != 0)
            {
                const bool own = r.kind == 'P' || r.kind == 'W';
                r.radius = v->ceilRadius(r.radius, own || r.min_xy);
                if (! own) r.min_xy = true;
            }
            TreeModelVolumes lazy = fresh();
            const Shape& late = ask(lazy, r);
            // without support on the model, the collision of radius 0 is put together in another order on demand, and simplified from other starting points
            const bool loose = ! everywhere && (r.radius == 0 || r.kind == 'W');
            if (loose ? ! late.xorPolygons(got[i]).offset(-60).empty() : ! same(late, got[i])) sim::violation("%s calculated in advance gives %zu polygons with %zu points and area %.0f, on demand %zu with %zu and %.0f", name(requests[i]).c_str(), got[i].size(), got[i].pointCount(), got[i].area(), late.size(), late.pointCount(), late.area());
            sim::probe("compared with on demand");
        }
    }
    v.reset();
    storage.reset();
    app.startThreadPool(1);
    return 0;
}
