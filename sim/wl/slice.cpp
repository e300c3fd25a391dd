// The whole engine, started as its command line starts it.
#include "../rt/sim.h"
#include <cstdlib>
#include <cstring>
#include <vector>

extern int cura_main(int argc, char** argv);

SIM_WORKLOAD(slice)
{
    static std::vector<char*> argv;
    {
        sim::HostScope h;
        const size_t n = sim::spec_count("arg");
        for (size_t i = 0; i < n; ++i) argv.push_back(const_cast<char*>(sim::spec_nth("arg", i)));
        argv.push_back(nullptr);
    }
    return cura_main(static_cast<int>(argv.size()) - 1, argv.data());
}
