// The whole engine, started as its command line starts it; afterwards the settings that every container resolves to.
#include "../rt/sim.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

extern int cura_main(int argc, char** argv);

namespace
{
void answer(const char* query, const cura::Settings* s, const char* key)
{
    if (s == nullptr) { sim::note("value %s absent", query); return; }
    if (! s->has(key, true)) { sim::note("value %s unset", query); return; }
    const std::string v = s->get<std::string>(key);
    sim::note("value %s =%s", query, v.c_str());
}
} // namespace

SIM_WORKLOAD(resolve)
{
    static std::vector<char*> argv;
    {
        sim::HostScope h;
        const size_t n = sim::spec_count("arg");
        for (size_t i = 0; i < n; ++i) argv.push_back(const_cast<char*>(sim::spec_nth("arg", i)));
        argv.push_back(nullptr);
    }
    const int rc = cura_main(static_cast<int>(argv.size()) - 1, argv.data());
    const std::shared_ptr<cura::Slice> slice = cura::Application::getInstance().current_slice_;
    if (! slice) { sim::note("no slice"); return rc; }
    sim::note("extruders %zu groups %zu", slice->scene.extruders.size(), slice->scene.mesh_groups.size());
    for (size_t i = 0; i < slice->scene.extruders.size(); ++i) sim::note("extruder %zu number %zu", i, slice->scene.extruders[i].extruder_nr_);
    for (size_t i = 0; i < sim::spec_count("query"); ++i)
    {
        // g/key, e1/key, m0/key (group), o0.1/key (object)
        const char* q = sim::spec_nth("query", i);
        const char* key = strchr(q, '/') + 1;
        const cura::Settings* s = nullptr;
        if (q[0] == 'g') s = &slice->scene.settings;
        else if (q[0] == 'e')
        {
            const size_t n = strtoul(q + 1, nullptr, 10);
            if (n < slice->scene.extruders.size()) s = &slice->scene.extruders[n].settings_;
        }
        else
        {
            char* end;
            const size_t grp = strtoul(q + 1, &end, 10);
            if (grp < slice->scene.mesh_groups.size())
            {
                auto& mg = slice->scene.mesh_groups[grp];
                if (q[0] == 'm') s = &mg.settings;
                else
                {
                    const size_t o = strtoul(end + 1, nullptr, 10);
                    if (o < mg.meshes.size()) s = &mg.meshes[o].settings_;
                }
            }
        }
        answer(q, s, key);
    }
    return rc;
}
