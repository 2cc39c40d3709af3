// parallel simulated annealing under ThreadSanitizer: the callbacks share nothing but relaxed atomics, which impose no
// order, so that any unsynchronised access to shared state inside the library is reported
#include "pbt.hpp"

#include <fiction/algorithms/optimization/simulated_annealing.hpp>

#include <atomic>
#include <cstdint>
#include <thread>
#include <vector>

using namespace fiction;

PBT("race", 6000, 60000, "at least two instances that accept at random")
{
    for (int repeat = 0; repeat < 3; ++repeat)  // another schedule each time
    {
    const auto instances = 1 + c.below(8);
    const auto cycles    = 1 + c.below(60);
    const auto n         = 2 + static_cast<int>(c.below(10));
    const auto temp      = static_cast<double>(1 + c.below(40));
    const auto noise     = c.below(3);
    c.note(instances, " instances, ", cycles, " cycles, ", n, " states, temperature ", temp);
    c.nontrivial(instances >= 2);
    std::atomic<std::uint64_t> starts{0}, evaluations{0};
    std::atomic<std::int64_t>  best{1000000};
    auto rand_state = [&]() -> int { return static_cast<int>(starts.fetch_add(1, std::memory_order_relaxed)) % n; };
    auto value      = [&](int s) -> std::int64_t { return (s * 7) % n * 3; };
    auto cost       = [&](const int& s) -> std::int64_t
    {
        evaluations.fetch_add(1, std::memory_order_relaxed);
        const auto v = value(s);
        auto       b = best.load(std::memory_order_relaxed);
        while (v < b && !best.compare_exchange_weak(b, v, std::memory_order_relaxed)) {}
        if (noise == 1)
        {
            std::this_thread::yield();
        }
        return v;
    };
    auto next  = [&](const int& s) -> int { return (s + 1) % n; };
    auto sched = [&](const double t) -> double { return t - temp / 3; };
    const auto r = multi_simulated_annealing(temp, 0.5, cycles, instances, rand_state, cost, sched, next);
    REQUIRE_EQ(starts.load(), instances, "one random state per instance");
    REQUIRE_EQ(r.second, best.load(), "the minimum over all instances");
    REQUIRE_EQ(r.second, value(r.first), "the cost returned belongs to the state returned");
    c.evals = instances;
    }
}

/// independent calls from several threads, as callers of the sequential function make them
PBT("race.callers", 4000, 40000, "at least two callers")
{
    const auto callers = 2 + c.below(5);
    const auto cycles  = 1 + c.below(60);
    c.note(callers, " callers, ", cycles, " cycles");
    c.nontrivial();
    std::vector<std::thread>                   ts{};
    std::vector<std::pair<int, std::int64_t>> res(callers);
    for (std::size_t i = 0; i < callers; ++i)
    {
        ts.emplace_back(
            [&, i]
            {
                std::int64_t lo = 1000;
                res[i]          = simulated_annealing(
                    static_cast<int>(i), 20.0, 1.0, cycles,
                    [&](const int& s)
                    {
                        const std::int64_t v = s % 13;
                        lo                   = std::min(lo, v);
                        return v;
                    },
                    [](const double t) { return t * 0.5; }, [](const int& s) { return (s * 5 + 3) % 97; });
                if (res[i].second != lo)
                {
                    res[i].second = -1;
                }
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    for (const auto& r : res)
    {
        REQUIRE_EQ(r.second, static_cast<std::int64_t>(r.first % 13), "each caller gets its own minimum");
    }
}
