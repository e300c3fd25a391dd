// Progress, its estimators and the clocks behind it. Real: Progress.cpp, ProgressStageEstimator.cpp, gettime.cpp, ThreadPool.cpp, Application.cpp.
#include "../rt/sim.h"
#include "Application.h"
#include "communication/Communication.h"
#include "progress/Progress.h"
#include "progress/ProgressEstimatorLinear.h"
#include "progress/ProgressStageEstimator.h"
#include "settings/types/LayerIndex.h"
#include "utils/ThreadPool.h"
#include <atomic>
#include <cmath>
#include <memory>
#include <mutex>
#include <vector>

using namespace cura;
using Stage = Progress::Stage;

namespace
{
uint64_t R(uint64_t n) { return sim::work_rng().below(n); }

struct Recorder : public Communication
{
    mutable std::vector<double> sent;
    bool hasSlice() const override { return false; }
    void sendProgress(double p) const override { sent.push_back(p); }
    void sendLayerComplete(const LayerIndex::value_type&, const coord_t&, const coord_t&) override {}
    void sendLineTo(const PrintFeatureType&, const Point3LL&, const coord_t&, const coord_t&, const Velocity&) override {}
    void sendCurrentPosition(const Point3LL&) override {}
    void setExtruderForSend(const ExtruderTrain&) override {}
    void setLayerForSend(const LayerIndex::value_type&) override {}
    void sendOptimizedLayerData() override {}
    void sendPrintInformation(const std::vector<Duration>&, const PrintInformation&) const override {}
    void sendGCodePart(const std::string&) override {}
    void sendSliceUUID(const std::string&) const override {}
    void sendFinishedSlicing() const override {}
    void sliceNext() override {}
};

std::shared_ptr<Recorder> rec;

double ask(Stage s, int n, int of)
{
    const size_t before = rec->sent.size();
    Progress::messageProgress(s, n, of);
    if (rec->sent.size() != before + 1) sim::violation("one progress message was sent as %zu", rec->sent.size() - before);
    const double v = rec->sent.back();
    if (! (v >= 0 && v <= 1)) sim::violation("progress of %g is sent at %d of %d in stage %d", v, n, of, static_cast<int>(s));
    return v;
}

bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
} // namespace

// What single messages say: bounds, order of the stages, shares within a stage, layers, under leaping clocks.
SIM_WORKLOAD(progress)
{
    for (uint64_t k = 1 + R(3); k > 0; --k) Progress::init(); // each slice of a process starts anew
    rec = std::make_shared<Recorder>();
    Application::getInstance().communication_ = rec;
    constexpr int N = static_cast<int>(Stage::FINISH) + 1;
    double lo[N], hi[N];
    for (int s = 0; s < N; ++s)
    {
        lo[s] = ask(static_cast<Stage>(s), 0, 1);
        hi[s] = ask(static_cast<Stage>(s), 1, 1);
        if (hi[s] < lo[s]) sim::violation("progress goes back within stage %d", s);
        if (s && ! near(lo[s], hi[s - 1])) sim::violation("stage %d starts at %g, the one before ends at %g", s, lo[s], hi[s - 1]);
    }
    if (! near(lo[0], 0)) sim::violation("progress starts at %g", lo[0]);
    if (! near(hi[N - 1], 1)) sim::violation("progress ends at %g", hi[N - 1]);
    for (int i = 0; i < 60; ++i)
    {
        const int s = static_cast<int>(R(N));
        const int of = R(4) ? 1 + static_cast<int>(R(2000)) : 1 + static_cast<int>(R(2000000000));
        const int n = R(5) ? static_cast<int>(R(static_cast<uint64_t>(of) + 1)) : R(2) ? -static_cast<int>(R(50)) : of + static_cast<int>(R(100));
        const double share = std::min(1.0, std::max(0.0, static_cast<double>(n) / of));
        const double v = ask(static_cast<Stage>(s), n, of);
        if (! near(v, lo[s] + share * (hi[s] - lo[s]))) sim::violation("%d of %d in stage %d is reported as %g instead of %g", n, of, s, v, lo[s] + share * (hi[s] - lo[s]));
    }
    // layers: reported when they took their time, silently passed over otherwise
    const int layers = 1 + static_cast<int>(R(40));
    const int first = -static_cast<int>(R(6));
    double last = 0;
    for (int l = first; l < layers; ++l)
    {
        const double threshold = R(3) ? 0.1 : 0.5;
        const double t = R(6) == 0 ? -static_cast<double>(R(1000)) : R(8) == 0 ? static_cast<double>(R(4000000000)) : static_cast<double>(R(1000)) / 1000.0; // clocks leap both ways
        TimeKeeper::RegisteredTimes stages;
        for (uint64_t k = R(4); k > 0; --k) stages.push_back({ std::string(R(30), 'x'), static_cast<double>(R(100)) / 100 });
        const size_t before = rec->sent.size();
        if (threshold == 0.1) Progress::messageProgressLayer(LayerIndex(l), static_cast<size_t>(layers), t, stages);
        else Progress::messageProgressLayer(LayerIndex(l), static_cast<size_t>(layers), t, stages, threshold);
        const size_t sent = rec->sent.size() - before;
        if (sent != (t < threshold ? 0u : 1u)) sim::violation("layer %d took %g s of %g and was reported %zu times", l, t, threshold, sent);
        if (! sent) continue;
        const double v = rec->sent.back();
        const double want = lo[6] + static_cast<double>(std::max(l, 0) + 1) / layers * (hi[6] - lo[6]);
        if (! near(v, want)) sim::violation("layer %d of %d is reported as %g instead of %g", l, layers, v, want);
        if (v < last) sim::violation("progress of layer %d of %d goes back from %g to %g", l, layers, last, v);
        last = v;
    }
    TimeKeeper keeper;
    for (int s = 0; s < N; ++s)
    {
        const size_t before = rec->sent.size();
        Progress::messageProgressStage(static_cast<Stage>(s), R(4) ? &keeper : nullptr);
        if (rec->sent.size() != before) sim::violation("the start of stage %d alone moved progress", s);
    }
    Application::getInstance().communication_.reset();
    rec.reset();
    return 0;
}

// Estimators of nested stages against their definition.
namespace
{
struct Node
{
    std::vector<double> weights;
    std::vector<std::unique_ptr<Node>> kids; // as many as weights, or none: a leaf
    int steps = 1;
};

std::unique_ptr<Node> grow(int depth)
{
    auto n = std::make_unique<Node>();
    if (depth == 0 || R(3) == 0)
    {
        n->steps = 1 + static_cast<int>(R(12));
        return n;
    }
    for (uint64_t k = 1 + R(4); k > 0; --k)
    {
        n->weights.push_back(static_cast<double>(1 + R(100)) / 4);
        n->kids.push_back(grow(depth - 1));
    }
    return n;
}

// Walks through all leaves in order; `top` is the estimator of the whole.
struct Walk
{
    ProgressStageEstimator* top;
    double last = 0;

    void leaf(const Node& n, double from, double width)
    {
        for (int i = 0; i <= n.steps; ++i)
        {
            const double v = top->progress(i), want = from + width * i / n.steps;
            if (! near(v, want)) sim::violation("after %d of %d steps the estimate is %g instead of %g", i, n.steps, v, want);
            if (v < last - 1e-12) sim::violation("the estimate goes back from %g to %g", last, v);
            last = v;
        }
    }
    void inner(const Node& n, ProgressStageEstimator* est, double from, double width)
    {
        double total = 0;
        for (const double w : n.weights) total += w;
        double at = from;
        for (size_t k = 0; k < n.kids.size(); ++k)
        {
            Node& c = *n.kids[k];
            const double part = width * n.weights[k] / total;
            if (c.kids.empty())
            {
                est->nextStage(new ProgressEstimatorLinear(static_cast<unsigned>(c.steps)));
                leaf(c, at, part);
            }
            else
            {
                auto* e = new ProgressStageEstimator(c.weights);
                est->nextStage(e);
                inner(c, e, at, part);
            }
            at += part;
        }
    }
};
} // namespace

SIM_WORKLOAD(estimators)
{
    for (int round = 0; round < 5; ++round)
    {
        std::unique_ptr<Node> n = grow(3);
        if (n->kids.empty()) continue;
        ProgressStageEstimator top(n->weights);
        Walk w{ &top };
        w.inner(*n, &top, 0, 1);
        // a stage too many is ignored
        if (R(2))
        {
            const double before = top.progress(0);
            auto extra = std::make_unique<ProgressEstimatorLinear>(3);
            top.nextStage(extra.get());
            if (! near(top.progress(0), before)) sim::violation("a stage too many moved the estimate from %g to %g", before, top.progress(0));
        }
    }
    return 0;
}

// Stop watches under leaping clocks: names and order of what is registered, thresholds, restarts.
SIM_WORKLOAD(watches)
{
    uint64_t t0 = sim::now_ns();
    TimeKeeper k;
    const bool jumps = sim::spec_int("jumps", 0) != 0;
    size_t before = 0;
    for (int i = 0; i < 40; ++i)
    {
        for (uint64_t n = R(3) ? R(20) : R(4000); n > 0; --n) sim::yield_point();
        const uint64_t t1 = sim::now_ns();
        if (R(4) == 0)
        {
            const double d = k.restart();
            if (! jumps && (d < 0 || d > static_cast<double>(sim::now_ns() - t0) * 1e-9 + 1e-12 || d < static_cast<double>(t1 - t0) * 1e-9 - 1e-4)) sim::violation("a stop watch shows %g s after %g s", d, static_cast<double>(t1 - t0) * 1e-9);
        }
        else
        {
            const double th = R(2) ? 0.01 : static_cast<double>(R(40)) / 1e6;
            const std::string name = "stage" + std::to_string(i);
            if (th == 0.01) k.registerTime(name);
            else k.registerTime(name, th);
            const auto& reg = k.getRegisteredTimes();
            const uint64_t t2 = sim::now_ns();
            if (reg.size() > before + 1 || reg.size() < before) sim::violation("one time was registered as %zu", reg.size() - before);
            if (reg.size() == before + 1)
            {
                if (reg.back().stage != name) sim::violation("the time of '%s' was registered as '%s'", name.c_str(), reg.back().stage.c_str());
                if (reg.back().duration < th) sim::violation("%g s were registered below the threshold of %g s", reg.back().duration, th);
                if (! jumps && reg.back().duration > static_cast<double>(t2 - t0) * 1e-9 + 1e-12) sim::violation("a stage of at most %g s was registered with %g s", static_cast<double>(t2 - t0) * 1e-9, reg.back().duration);
            }
            else if (! jumps && static_cast<double>(t1 - t0) * 1e-9 > th + 1e-4) sim::violation("a stage of %g s was not registered at a threshold of %g s", static_cast<double>(t1 - t0) * 1e-9, th);
            before = reg.size();
        }
        t0 = t1;
    }
    return 0;
}
