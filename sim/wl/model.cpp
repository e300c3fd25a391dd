// Loading of models, textures and density images.
#include "../rt/sim.h"
#include "MeshGroup.h"
#include "TextureDataProvider.h"
#include "infill/ImageBasedDensityProvider.h"
#include "mesh.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "utils/Matrix4x3D.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

using namespace cura;

// load=<path>            loads a model into the group; everything that was loaded is noted
// matrix=a b c d e f g h i
// uvq=<u> <v>            texture coordinates looked up in the first textured mesh
// feature=<name>         painted features looked up at every pixel
SIM_WORKLOAD(model)
{
    MeshGroup group;
    Settings parent;
    Matrix4x3D matrix;
    if (const char* m = sim::spec_str("matrix", nullptr))
    {
        double v[9];
        if (sscanf(m, "%lf %lf %lf %lf %lf %lf %lf %lf %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8) == 9)
            for (int i = 0; i < 9; ++i) matrix.m[i / 3][i % 3] = v[i];
    }
    for (size_t i = 0; i < sim::spec_count("load"); ++i)
    {
        const size_t before = group.meshes.size();
        const bool ok = loadMeshIntoMeshGroup(&group, sim::spec_nth("load", i), matrix, parent);
        sim::note("load %zu %s", i, ok ? "ok" : "failed");
        if (group.meshes.size() != before + (ok ? 1 : 0)) sim::violation("loading %s, but the group grew by %zu meshes", ok ? "succeeded" : "failed", group.meshes.size() - before);
        if (! ok) continue;
        const Mesh& mesh = group.meshes.back();
        const Point3LL lo = mesh.min(), hi = mesh.max();
        sim::note("mesh %zu name %s faces %zu vertices %zu box %lld %lld %lld %lld %lld %lld", i, mesh.mesh_name_.c_str(), mesh.faces_.size(), mesh.vertices_.size(), static_cast<long long>(lo.x_), static_cast<long long>(lo.y_), static_cast<long long>(lo.z_), static_cast<long long>(hi.x_), static_cast<long long>(hi.y_), static_cast<long long>(hi.z_));
        for (size_t k = 0; k < mesh.faces_.size(); ++k)
        {
            const MeshFace& f = mesh.faces_[k];
            char b[400];
            int n = snprintf(b, sizeof(b), "f");
            for (int c = 0; c < 3; ++c)
            {
                if (f.vertex_index_[c] < 0 || static_cast<size_t>(f.vertex_index_[c]) >= mesh.vertices_.size()) { sim::violation("a face refers to vertex %d of %zu", f.vertex_index_[c], mesh.vertices_.size()); return 0; }
                const Point3LL& p = mesh.vertices_[static_cast<size_t>(f.vertex_index_[c])].p_;
                n += snprintf(b + n, sizeof(b) - static_cast<size_t>(n), " %lld,%lld,%lld", static_cast<long long>(p.x_), static_cast<long long>(p.y_), static_cast<long long>(p.z_));
            }
            n += snprintf(b + n, sizeof(b) - static_cast<size_t>(n), " c %d %d %d", f.connected_face_index_[0], f.connected_face_index_[1], f.connected_face_index_[2]);
            for (int c = 0; c < 3; ++c)
                if (f.uv_coordinates_[c].has_value()) n += snprintf(b + n, sizeof(b) - static_cast<size_t>(n), " uv %.9g,%.9g", f.uv_coordinates_[c]->x_, f.uv_coordinates_[c]->y_);
            sim::note("%s", b);
        }
        for (size_t v = 0; v < mesh.vertices_.size(); ++v)
            for (const uint32_t k : mesh.vertices_[v].connected_faces_)
                if (k >= mesh.faces_.size()) { sim::violation("a vertex belongs to face %u of %zu", k, mesh.faces_.size()); return 0; }
        if (! mesh.texture_ != ! mesh.texture_data_mapping_) sim::violation("a mesh has a texture without a mapping or the other way round");
        if (! mesh.texture_) { sim::note("texture none"); continue; }
        const Image& im = *mesh.texture_;
        sim::note("texture %zu x %zu", im.getWidth(), im.getHeight());
        for (const auto& [name, f] : *mesh.texture_data_mapping_) sim::note("map %s %zu %zu", name.c_str(), f.bit_range_start_index, f.bit_range_end_index);
        const TextureDataProvider provider(nullptr, mesh.texture_, mesh.texture_data_mapping_);
        for (size_t y = 0; y < im.getHeight(); ++y)
        {
            std::string row;
            for (size_t x = 0; x < im.getWidth(); ++x)
            {
                row += " " + std::to_string(im.getPixel(x, y));
                for (size_t q = 0; q < sim::spec_count("feature"); ++q)
                {
                    const auto v = provider.getValue(x, y, sim::spec_nth("feature", q));
                    row += v ? ":" + std::to_string(*v) : std::string(":-");
                }
            }
            sim::note("row %zu%s", y, row.c_str());
        }
        for (size_t q = 0; q < sim::spec_count("uvq"); ++q)
        {
            float u = 0, v = 0;
            sscanf(sim::spec_nth("uvq", q), "%f %f", &u, &v);
            const auto p = im.getPixelCoordinates(Point2F(u, v));
            sim::note("uvq %zu -> %zu %zu = %u", q, p.first, p.second, im.getPixel(Point2F(u, v)));
        }
    }
    return 0;
}

// image=<path>, box=x0 y0 x1 y1, ask=x0 y0 x1 y1
SIM_WORKLOAD(density)
{
    long long b[4];
    auto four = [&b](const char* s) { return sscanf(s, "%lld %lld %lld %lld", b, b + 1, b + 2, b + 3) == 4; };
    if (! four(sim::spec_str("box", ""))) return 3;
    const ImageBasedDensityProvider provider(sim::spec_str("image"), AABB(Point2LL(b[0], b[1]), Point2LL(b[2], b[3])));
    for (size_t i = 0; i < sim::spec_count("ask"); ++i)
    {
        four(sim::spec_nth("ask", i));
        const double d = provider(AABB3D(Point3LL(b[0], b[1], 0), Point3LL(b[2], b[3], 1000)));
        if (! (d >= -1e-9 && d <= 1 + 1e-9)) sim::violation("a density of %g", d);
        sim::note("density %zu %.12f", i, d);
    }
    return 0;
}
