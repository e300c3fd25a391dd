// The thread pool and its two concurrency primitives under random programs. Real: ThreadPool.{h,cpp}, Application.cpp.
#include "../rt/sim.h"
#include "Application.h"
#include "utils/ThreadPool.h"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <optional>
#include <vector>

using namespace cura;

namespace
{
Application& app() { return Application::getInstance(); }

uint64_t R(uint64_t n) { return sim::work_rng().below(n); }
// pseudo-random but independent of which thread asks when: the program must not depend on the schedule
uint64_t H(uint64_t a, uint64_t b)
{
    sim::Rng r;
    r.seed(a * 1000003u + b);
    return r.next();
}

void dawdle(uint64_t h)
{
    for (uint64_t k = h % 4; k > 0; --k) sim::yield_point();
}

struct Loop
{
    long first;
    long n;
    size_t factor, per_worker;
    int nested; // every k-th element runs a loop of its own; 0: none
    uint64_t seed;
};

struct Tally
{
    // one cell per element; plain memory, so two unsynchronised touches of one cell are also a reported race
    std::vector<int> started, finished;
    std::vector<uint64_t> out;
    explicit Tally(size_t n) : started(n, 0), finished(n, 0), out(n, 0) {}
};

void run_loop(const Loop& l, int depth);

void body(const Loop& l, Tally& t, bool& open, long i, int depth)
{
    const long k = i - l.first;
    if (k < 0 || k >= l.n) sim::violation("a loop over [%ld,%ld) ran its body for element %ld", l.first, l.first + l.n, i);
    if (! open) sim::violation("a loop body started after the loop had returned (element %ld of [%ld,%ld))", i, l.first, l.first + l.n);
    if (t.started[static_cast<size_t>(k)]++) sim::violation("a loop ran its body more than once for element %ld of [%ld,%ld) group %zu per worker %zu", i, l.first, l.first + l.n, l.factor, l.per_worker);
    const uint64_t h = H(l.seed, static_cast<uint64_t>(k));
    dawdle(h);
    if (l.nested && k % l.nested == 0 && depth < 2)
    {
        sim::probe("nested_loop");
        Loop in{ static_cast<long>(h % 7), static_cast<long>((h >> 8) % 9), 1 + (h >> 16) % 3, 1 + (h >> 20) % 4, 0, h };
        run_loop(in, depth + 1);
    }
    t.out[static_cast<size_t>(k)] = h;
    t.finished[static_cast<size_t>(k)]++;
}

void run_loop(const Loop& l, int depth)
{
    auto t = std::make_unique<Tally>(static_cast<size_t>(l.n > 0 ? l.n : 0));
    auto open = std::make_unique<bool>(true);
    const int kind = static_cast<int>(l.seed % 5);
    if (kind == 0 && l.first >= 0)
        parallel_for<size_t>(static_cast<size_t>(l.first), static_cast<size_t>(l.first + l.n), [&](size_t i) { body(l, *t, *open, static_cast<long>(i), depth); }, l.factor, l.per_worker);
    else if (kind == 1)
        parallel_for<int>(static_cast<int>(l.first), static_cast<int>(l.first + l.n), [&](int i) { body(l, *t, *open, i, depth); }, l.factor, l.per_worker);
    else if (kind == 2 && l.n >= 0)
    {
        std::vector<long> v(static_cast<size_t>(l.n));
        for (long i = 0; i < l.n; ++i) v[static_cast<size_t>(i)] = l.first + i;
        parallel_for(v, [&](auto it) { body(l, *t, *open, *it, depth); }, l.factor, l.per_worker);
    }
    else if (kind == 3 && l.n >= 0)
    {
        std::vector<long> v(static_cast<size_t>(l.n));
        for (long i = 0; i < l.n; ++i) v[static_cast<size_t>(i)] = l.first + i;
        parallel_for(v.begin(), v.end(), [&](auto it) { body(l, *t, *open, *it, depth); }, l.factor, l.per_worker);
    }
    else
        parallel_for<int64_t>(l.first, l.first + l.n, [&](int64_t i) { body(l, *t, *open, i, depth); }, l.factor, l.per_worker);
    *open = false;
    for (long k = 0; k < l.n; ++k)
    {
        const size_t u = static_cast<size_t>(k);
        if (t->started[u] != 1) sim::violation("a loop over [%ld,%ld) group %zu per worker %zu returned having run its body %d times for element %ld", l.first, l.first + l.n, l.factor, l.per_worker, t->started[u], l.first + k);
        if (t->finished[u] != 1) sim::violation("a loop over [%ld,%ld) returned while its body was still running for element %ld", l.first, l.first + l.n, l.first + k);
        if (t->out[u] != H(l.seed, u)) sim::violation("what the body wrote for element %ld is not visible after the loop", l.first + k);
    }
    sim::probe("loops");
}

// One element takes until all the elements of other chunks are done: with a second worker about, that ends.
void patient_loop()
{
    const uint64_t seed = sim::work_rng().next();
    const long workers = static_cast<long>(app().thread_pool_->thread_count()) + 1;
    if (workers < 2) return;
    const long factor = 1 + static_cast<long>(H(seed, 1) % 4), blocks = 2 + static_cast<long>(H(seed, 2) % static_cast<uint64_t>(workers - 1));
    const long n = factor * blocks - static_cast<long>(H(seed, 3) % static_cast<uint64_t>(factor)), held = static_cast<long>(H(seed, 4) % static_cast<uint64_t>(n));
    const long from = held / factor * factor, to = std::min(n, from + factor);
    auto m = std::make_unique<std::mutex>();
    auto c = std::make_unique<std::condition_variable>();
    long others = 0;
    parallel_for<long>(
        0,
        n,
        [&](long i)
        {
            dawdle(H(seed, static_cast<uint64_t>(i) + 10));
            std::unique_lock<std::mutex> l(*m);
            if (i == held)
                while (others < n - (to - from)) c->wait(l);
            else if (i < from || i >= to)
            {
                ++others;
                c->notify_all();
            }
        },
        static_cast<size_t>(factor));
    sim::probe("patient_loops");
}

Loop random_loop()
{
    Loop l;
    l.first = static_cast<long>(R(40)) - 15;
    switch (R(8))
    {
    case 0: l.n = static_cast<long>(R(3)); break;
    case 1: l.n = -static_cast<long>(R(4)); break;
    case 2: l.n = static_cast<long>(1 + R(200)); break;
    default: l.n = static_cast<long>(1 + R(40)); break;
    }
    l.factor = R(3) ? R(3) : 1 + R(60);
    l.per_worker = R(3) ? 8 : 1 + R(12);
    l.nested = R(4) == 0 ? static_cast<int>(1 + R(5)) : 0;
    if (l.nested && l.n > 30) l.n = 30;
    l.seed = sim::work_rng().next();
    return l;
}

// ---- ordered pipeline ----
struct Item
{
    static long live;
    long idx;
    uint64_t val;
    Item(long i, uint64_t v) : idx(i), val(v) {}
};
long Item::live = 0;

template<typename Box>
struct Pipe
{
    long first, n;
    size_t per_worker;
    uint64_t seed;
    int nested;
    long patient = 0; // every so many elements, one is produced only once the window behind it is full
    std::mutex m;
    std::condition_variable grown;
    long ready = 0;
    bool consuming = false;
    bool open = true;
    int inside = 0;
    std::vector<int> made, eaten;

    static Box make(long i, uint64_t v);
    static const Item& get(const Box& b);
    void run()
    {
        made.assign(static_cast<size_t>(n > 0 ? n : 0), 0);
        eaten = made;
        const long window = static_cast<long>(per_worker * (Application::getInstance().thread_pool_->thread_count() + 1));
        run_multiple_producers_ordered_consumer(
            first,
            first + n,
            [this, window](ptrdiff_t i) -> Box
            {
                {
                    sim::HostScope h; // bookkeeping of the check, not shared state of the program
                    if (! open) sim::violation("a producer started after the pipeline had returned");
                    const long k = i - first;
                    if (k < 0 || k >= n) sim::violation("a producer ran for element %td outside [%ld,%ld)", i, first, first + n);
                    if (made[static_cast<size_t>(k)]++) sim::violation("element %td was produced twice", i);
                    if (k - done_count >= window) sim::violation("element %ld was started while element %ld was not consumed yet: window of %ld", k, static_cast<long>(done_count), window);
                    if (k - done_count == window - 1) sim::probe("window_full");
                    ++inside;
                    if (inside > 1) sim::probe("producers_overlap");
                }
                const uint64_t h = H(seed, static_cast<uint64_t>(i - first));
                dawdle(h % 3 == 0 ? 0 : h >> 4);
                if (nested && (i - first) % nested == 0)
                {
                    Loop l{ 0, static_cast<long>(1 + h % 6), 1, 2, 0, h };
                    run_loop(l, 2);
                }
                Box b = make(i, h);
                if (patient)
                {
                    const long k = i - first;
                    std::unique_lock<std::mutex> l(m);
                    // each of the others is ready at some time, whatever the element that is waited for takes
                    if (k % patient == patient / 2)
                        while (ready < std::min(n, k + window) - 1) grown.wait(l);
                    ++ready;
                    grown.notify_all();
                }
                sim::HostScope hs;
                --inside;
                return b;
            },
            [this](Box b)
            {
                {
                    sim::HostScope h;
                    if (! open) sim::violation("the consumer ran after the pipeline had returned");
                    if (consuming) sim::violation("two consumers run at once");
                    consuming = true;
                }
                const Item& it = get(b);
                const long k = it.idx - first;
                if (k != last + 1) sim::violation("element %ld was consumed after element %ld", k, last);
                if (it.val != H(seed, static_cast<uint64_t>(k))) sim::violation("the consumer got something else than what was produced for element %ld", k);
                if (eaten[static_cast<size_t>(k)]++) sim::violation("element %ld was consumed twice", k);
                last = k; // plain memory: consumers must be ordered by synchronisation
                dawdle(H(seed, 77 + static_cast<uint64_t>(k)));
                sim::HostScope h;
                consuming = false;
                ++done_count;
            },
            per_worker);
        open = false;
        if (consuming || inside) sim::violation("the pipeline returned while %s was still running", consuming ? "the consumer" : "a producer");
        for (long k = 0; k < n; ++k)
            if (made[static_cast<size_t>(k)] != 1 || eaten[static_cast<size_t>(k)] != 1)
                sim::violation("the pipeline over %ld elements returned with element %ld produced %d times and consumed %d times", n, k, made[static_cast<size_t>(k)], eaten[static_cast<size_t>(k)]);
        sim::probe("pipelines");
    }
    volatile long done_count = 0;
    long last = -1;
};
template<> std::unique_ptr<Item> Pipe<std::unique_ptr<Item>>::make(long i, uint64_t v) { return std::make_unique<Item>(i, v); }
template<> const Item& Pipe<std::unique_ptr<Item>>::get(const std::unique_ptr<Item>& b) { return *b; }
template<> std::optional<Item> Pipe<std::optional<Item>>::make(long i, uint64_t v) { return Item(i, v); }
template<> const Item& Pipe<std::optional<Item>>::get(const std::optional<Item>& b) { return *b; }
template<> std::shared_ptr<Item> Pipe<std::shared_ptr<Item>>::make(long i, uint64_t v) { return std::make_shared<Item>(i, v); }
template<> const Item& Pipe<std::shared_ptr<Item>>::get(const std::shared_ptr<Item>& b) { return *b; }

template<typename Box>
void random_pipe(int nested)
{
    // on the heap: a straggler that touches it after the end touches freed memory
    auto p = std::make_unique<Pipe<Box>>();
    p->first = static_cast<long>(R(20)) - 6;
    p->n = R(6) == 0 ? static_cast<long>(R(3)) - 1 : static_cast<long>(1 + R(R(3) ? 25 : 120));
    p->per_worker = R(3) ? 1 + R(3) : 8;
    p->seed = sim::work_rng().next();
    p->nested = nested;
    const long workers = static_cast<long>(app().thread_pool_->thread_count()) + 1;
    if (workers > 1 && p->n > 0 && R(3) == 0)
    {
        p->patient = workers * static_cast<long>(p->per_worker) + static_cast<long>(R(6));
        sim::probe("patient_pipes");
    }
    p->run();
}

void random_workers()
{
    app().startThreadPool(static_cast<int>(1 + R(6)));
}

void stop()
{
    delete app().thread_pool_;
    app().thread_pool_ = nullptr;
    if (sim::live_threads() != 1) sim::violation("%d worker threads are left after the pool was destroyed", sim::live_threads() - 1);
}
} // namespace

SIM_WORKLOAD(parfor)
{
    random_workers();
    const uint64_t k = 1 + R(5);
    for (uint64_t i = 0; i < k; ++i)
    {
        const Loop l = random_loop();
        run_loop(l, 0);
        if (R(4) == 0) patient_loop();
        if (R(8) == 0) random_workers();
    }
    stop();
    return 0;
}

SIM_WORKLOAD(ordered)
{
    random_workers();
    const uint64_t k = 1 + R(4);
    for (uint64_t i = 0; i < k; ++i)
    {
        switch (R(3))
        {
        case 0: random_pipe<std::unique_ptr<Item>>(0); break;
        case 1: random_pipe<std::optional<Item>>(0); break;
        default: random_pipe<std::shared_ptr<Item>>(0); break;
        }
        if (R(3) == 0) run_loop(random_loop(), 1); // the pool is as good as new afterwards
        if (R(8) == 0) random_workers();
    }
    stop();
    return 0;
}

namespace
{
struct Ledger
{
    std::vector<int> ran;
    size_t queued = 0;
};
void task(ThreadPool* pool, std::shared_ptr<Ledger> led, size_t id, int depth, ThreadPool::lock_t& lock)
{
    if (! lock.owns_lock()) sim::violation("a task was started without the lock of the queue");
    if (led->ran[id]++) sim::violation("a queued task ran twice");
    const uint64_t h = H(id, static_cast<uint64_t>(depth) + 5);
    if (h % 3)
    {
        lock.unlock();
        dawdle(h >> 3);
        lock.lock();
    }
    if (depth < 3 && h % 5 < 2 && led->queued < led->ran.size())
    {
        const size_t nid = led->queued++;
        pool->push(lock, [pool, led, nid, depth](ThreadPool::lock_t& l) { task(pool, led, nid, depth + 1, l); });
        sim::probe("task_queued_by_task");
    }
}
} // namespace

SIM_WORKLOAD(lifecycle)
{
    const uint64_t rounds = 1 + R(3);
    for (uint64_t r = 0; r < rounds; ++r)
    {
        const size_t n = R(6);
        auto pool = std::make_unique<ThreadPool>(n);
        if (pool->thread_count() != n) sim::violation("a pool of %zu threads says it has %zu", n, pool->thread_count());
        if (sim::live_threads() > static_cast<int>(n) + 1) sim::violation("a pool of %zu threads started %d", n, sim::live_threads() - 1);
        auto led = std::make_shared<Ledger>();
        led->ran.resize(200, 0);
        const uint64_t batches = R(4);
        for (uint64_t b = 0; b < batches; ++b)
        {
            auto lock = pool->get_lock();
            const uint64_t k = R(12);
            for (uint64_t i = 0; i < k && led->queued < led->ran.size(); ++i)
            {
                const size_t id = led->queued++;
                ThreadPool* p = pool.get();
                pool->push(lock, [p, led, id](ThreadPool::lock_t& l) { task(p, led, id, 0, l); });
            }
            switch (R(4))
            {
            case 0: // help until the queue is empty
                pool->work_while(lock, [] { return true; });
                break;
            case 1:
            {
                size_t todo = R(5), limit = todo;
                pool->work_while(lock, [&todo] { return todo > 0 ? todo--, true : false; });
                (void)limit;
                break;
            }
            default: break;
            }
            if (! lock.owns_lock()) sim::violation("the lock of the queue is lost after working on it");
            lock.unlock();
            dawdle(R(8));
        }
        pool.reset();
        if (sim::live_threads() != 1) sim::violation("%d worker threads are left after the pool was destroyed", sim::live_threads() - 1);
        for (size_t i = 0; i < led->queued; ++i)
            if (led->ran[i] != 1) sim::violation("the pool was destroyed and task %zu of %zu ran %d times", i, led->queued, led->ran[i]);
        if (led.use_count() != 1) sim::violation("the destroyed pool still holds %ld tasks", led.use_count() - 1);
        sim::probe("pools");
    }
    return 0;
}

// Starting, keeping and replacing the application's pool.
SIM_WORKLOAD(restart)
{
    const long ncpu = sim::spec_int("ncpu", 4);
    const uint64_t rounds = 1 + R(6);
    for (uint64_t r = 0; r < rounds; ++r)
    {
        const ThreadPool* before = app().thread_pool_;
        const size_t had = before ? before->thread_count() : 0;
        const int ask = R(3) == 0 ? -static_cast<int>(R(3)) : static_cast<int>(1 + R(6));
        app().startThreadPool(ask);
        if (! app().thread_pool_) sim::violation("there is no pool after asking for %d workers", ask);
        const size_t now = app().thread_pool_->thread_count();
        const size_t want = ask > 0 ? static_cast<size_t>(ask - 1) : before ? had : static_cast<size_t>(ncpu > 1 ? ncpu - 1 : 0);
        if (now != want) sim::violation("asking for %d workers%s on a machine of %ld processors gave %zu besides the main one, not %zu", ask, before ? " with a pool running" : "", ncpu, now, want);
        if (before && now == had && app().thread_pool_ != before && ask <= 0) sim::violation("a pool was replaced though none was asked for");
        if (sim::live_threads() > static_cast<int>(now) + 1) sim::violation("%d worker threads run for a pool of %zu", sim::live_threads() - 1, now);
        if (R(2)) run_loop(random_loop(), 1);
        if (R(3) == 0) random_pipe<std::unique_ptr<Item>>(0);
        if (R(8) == 0) stop();
    }
    stop();
    return 0;
}

// ---- exceptions that leave loop bodies, producers and consumers
namespace
{
struct Failure
{
    uint64_t of; // the loop or pipeline
    long at;
};
struct FailTally
{
    int running = 0;
    bool open = true;
    long thrown = 0;
    std::vector<int> started, finished;
    long last = -1;
};
struct Inside
{
    FailTally& t;
    explicit Inside(FailTally& x, const char* what) : t(x)
    {
        sim::HostScope h;
        if (! t.open) sim::violation("%s starts after the call was over", what);
        ++t.running;
    }
    ~Inside()
    {
        sim::HostScope h;
        --t.running;
    }
};
void throws(FailTally& t)
{
    sim::HostScope h;
    ++t.thrown;
}
std::unique_ptr<FailTally> fresh(long n)
{
    sim::HostScope h;
    auto t = std::make_unique<FailTally>();
    t->started.assign(static_cast<size_t>(n), 0);
    t->finished = t->started;
    return t;
}
void over(std::unique_ptr<FailTally> t, const char* what, bool threw, const Failure& f, uint64_t seed, bool memory)
{
    sim::HostScope h;
    t->open = false;
    if (t->running) sim::violation("%s ended while %d bodies were still running", what, t->running);
    if (threw && ! memory && (f.of != seed || f.at < 0 || static_cast<size_t>(f.at) >= t->started.size())) sim::violation("%s ended with an exception that is not its own", what);
    if (! threw && t->thrown) sim::violation("%ld exceptions left the body of %s, which ended as if there were none", t->thrown, what);
    if (threw && ! memory && ! t->thrown) sim::violation("%s ended with an exception that none of its bodies threw", what);
    for (size_t k = 0; k < t->started.size(); ++k)
    {
        if (t->started[k] > 1) sim::violation("element %zu was run %d times by %s", k, t->started[k], what);
        if (! threw && t->finished[k] != 1) sim::violation("element %zu was left out by %s, which ended normally", k, what);
    }
    sim::probe(threw ? memory ? "out of memory" : "exceptions" : "normal ends");
    (void)t.release(); // stragglers would write here
}

void failing_loop(int depth)
{
    const uint64_t seed = depth ? H(depth, R(1000)) : sim::work_rng().next();
    const long n = static_cast<long>(H(seed, 1) % 30);
    const uint64_t every = H(seed, 2) % 3 ? 1 + H(seed, 3) % 12 : 0; // one in so many elements fails
    auto t = fresh(n);
    bool threw = false, memory = false;
    Failure f{};
    try
    {
        parallel_for<long>(
            0,
            n,
            [&, tally = t.get()](long i)
            {
                Inside in(*tally, "a body");
                ++tally->started[static_cast<size_t>(i)];
                dawdle(H(seed, static_cast<uint64_t>(i) + 10));
                if (every && H(seed, static_cast<uint64_t>(i) + 500) % every == 0)
                {
                    throws(*tally);
                    throw Failure{ seed, i };
                }
                dawdle(H(seed, static_cast<uint64_t>(i) + 999));
                ++tally->finished[static_cast<size_t>(i)];
            },
            1 + H(seed, 4) % 4,
            1 + H(seed, 5) % 8);
    }
    catch (const Failure& x) { threw = true; f = x; }
    catch (const std::bad_alloc&) { threw = memory = true; }
    over(std::move(t), "a loop", threw, f, seed, memory);
}

void failing_pipe()
{
    const uint64_t seed = sim::work_rng().next();
    const long n = static_cast<long>(H(seed, 1) % 40), first = static_cast<long>(H(seed, 6) % 9) - 4;
    const uint64_t every = H(seed, 2) % 3 ? 1 + H(seed, 3) % 20 : 0, every2 = H(seed, 2) % 2 ? 1 + H(seed, 4) % 20 : 0;
    auto t = fresh(n);
    bool threw = false, memory = false;
    Failure f{};
    FailTally* tally = t.get();
    const auto run = [&]
    {
        run_multiple_producers_ordered_consumer(
            first,
            first + n,
            [=](ptrdiff_t i) -> std::optional<Item>
            {
                Inside in(*tally, "a producer");
                const long k = i - first;
                ++tally->started[static_cast<size_t>(k)];
                dawdle(H(seed, static_cast<uint64_t>(k) + 10));
                if (every && H(seed, static_cast<uint64_t>(k) + 500) % every == 0)
                {
                    throws(*tally);
                    throw Failure{ seed, k };
                }
                return Item(k, 0);
            },
            [=](std::optional<Item> it)
            {
                Inside in(*tally, "the consumer");
                if (it->idx != tally->last + 1) sim::violation("element %ld is consumed after element %ld", it->idx, tally->last);
                tally->last = it->idx;
                dawdle(H(seed, static_cast<uint64_t>(it->idx) + 3000));
                if (every2 && H(seed, static_cast<uint64_t>(it->idx) + 700) % every2 == 0)
                {
                    throws(*tally);
                    throw Failure{ seed, it->idx };
                }
                ++tally->finished[static_cast<size_t>(it->idx)];
            },
            1 + H(seed, 5) % 4);
    };
    try { run(); }
    catch (const Failure& x) { threw = true; f = x; }
    catch (const std::bad_alloc&) { threw = memory = true; }
    over(std::move(t), "a pipeline", threw, f, seed, memory);
}
} // namespace

SIM_WORKLOAD(failing)
{
    app().startThreadPool(static_cast<int>(1 + R(5)));
    const uint64_t k = 1 + R(5);
    for (uint64_t i = 0; i < k; ++i)
    {
        if (R(2)) failing_loop(0);
        else failing_pipe();
    }
    stop();
    return 0;
}
