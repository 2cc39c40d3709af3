// simulated annealing: every decision of a run is recomputed from the recorded calls
#include "pbt.hpp"

#include <fiction/algorithms/optimization/simulated_annealing.hpp>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <memory>
#include <random>
#include <thread>
#include <vector>

using namespace fiction;

// the generator is seeded from the random device: give it deterministic entropy
static std::atomic<std::uint64_t> verif_entropy{1};
namespace std
{
unsigned int random_device::_M_getval()
{
    return static_cast<unsigned int>(pbt::splitmix(verif_entropy.fetch_add(1)) >> 20u);
}
}  // namespace std

/// runs f in a new thread, so that thread-local generators start afresh
template <typename F>
void fresh(std::uint64_t seed, F&& f)
{
    verif_entropy = seed;
    std::exception_ptr e{};
    std::thread        t{[&]
                  {
                      try
                      {
                          f();
                      }
                      catch (...)
                      {
                          e = std::current_exception();
                      }
                  }};
    t.join();
    if (e)
    {
        std::rethrow_exception(e);
    }
}

struct event
{
    enum
    {
        COST,
        NEXT,
        TEMP
    } what;
    std::int64_t a;  // argument state
    std::int64_t r;  // result (state or cost index)
    double       t{0}, u{0};
};

template <typename Cost>
void trace(pbt::ctx& c)
{
    // a random landscape over states 0..n-1 and a random neighbourhood script
    const auto        n = 2 + c.below(12);
    std::vector<Cost> land(n);
    const auto        span = 1 + c.below(c.flip() ? 3 : 400);
    for (auto& l : land)
    {
        l = static_cast<Cost>(c.in<std::int64_t>(-static_cast<std::int64_t>(span), static_cast<std::int64_t>(span)));
        if constexpr (std::is_floating_point_v<Cost>)
        {
            l /= 8;
        }
    }
    const double init  = static_cast<double>(c.in<std::int64_t>(0, 400)) / 4.0;
    const double fin   = c.chance(1, 6) ? init : static_cast<double>(c.in<std::int64_t>(0, 200)) / (c.flip() ? 4.0 : 32.0);
    const auto   cycles = c.below(7);
    const auto   mode   = c.below(5);
    const auto   salt   = c.u64();
    c.note(n, " states, temperatures ", init, " to ", fin, ", ", cycles, " cycles, schedule ", mode, ", costs ", pbt::show(land));
    std::vector<event> log{};
    std::uint64_t      step = 0;
    std::uint64_t      temps = 0;
    const std::int64_t start = static_cast<std::int64_t>(c.below(n));
    auto cost = [&](const std::int64_t& s) -> Cost
    {
        log.push_back({event::COST, s, 0});
        return land[static_cast<std::size_t>(s)];
    };
    auto next = [&](const std::int64_t& s) -> std::int64_t
    {
        const auto r = static_cast<std::int64_t>(pbt::mix(salt, step++) % n);
        log.push_back({event::NEXT, s, r});
        return r;
    };
    auto sched = [&](const double t) -> double
    {
        ++temps;
        double u = 0;
        switch (mode)
        {
            case 0: u = linear_temperature_schedule(t); break;
            case 1: u = temps > 60 ? fin : t * 0.5 - 1.0; break;
            case 2: u = fin - 5.0; break;                                         // undershoots at once
            case 3: u = temps > 12 ? fin : (temps % 3 == 0 ? t + 1000.0 : t - 3.0); break;  // reheats above the start
            default: u = temps > 30 ? fin - 1.0 : geometric_temperature_schedule(t); break;
        }
        log.push_back({event::TEMP, 0, 0, t, u});
        return u;
    };
    std::pair<std::int64_t, Cost> res{};
    fresh(salt | 1u, [&] { res = simulated_annealing(start, init, fin, cycles, cost, sched, next); });

    // replay of the log
    std::size_t i = 0;
    auto        at = [&](auto what) -> event&
    {
        REQUIRE_THAT(i < log.size(), "the run ends early after " << i << " calls");
        REQUIRE_THAT(log[i].what == what, "call " << i << " is of kind " << static_cast<int>(log[i].what));
        return log[i++];
    };
    auto L = [&](std::int64_t s) { return land[static_cast<std::size_t>(s)]; };
    REQUIRE_EQ(at(event::COST).a, start, "the initial state is evaluated first");
    std::int64_t best = start;
    // the current state is known only as a set of candidates (a worse state is accepted at random)
    std::int64_t cur = start;
    std::int64_t alt = -1;  // the state that may have been accepted instead
    double       t   = init;
    std::uint64_t worse = 0, improved = 0;
    while (t > fin)
    {
        for (std::uint64_t k = 0; k < cycles; ++k)
        {
            const auto& e = at(event::NEXT);
            if (alt >= 0 && e.a == alt)
            {
                cur = alt;
            }
            alt = -1;
            REQUIRE_EQ(e.a, cur, "the neighbour of the current state is asked for");
            const auto neu = e.r;
            REQUIRE_EQ(at(event::COST).a, neu, "the neighbour is evaluated");
            if (L(neu) < L(best))
            {
                best = neu;
                cur  = neu;
                ++improved;
                continue;
            }
            const double delta = static_cast<double>(L(neu) - L(cur));
            if (delta <= 0)
            {
                cur = neu;  // never refuse what is not worse
            }
            else if (delta > 10.0 * t)
            {
                ++worse;  // practically impossible: refused
            }
            else
            {
                ++worse;
                alt = neu;
            }
        }
        const auto& e = at(event::TEMP);
        REQUIRE_EQ(e.t, t, "the schedule is applied to the current temperature");
        t = std::clamp(e.u, fin, init);
    }
    REQUIRE_EQ(i, log.size(), "no call follows the final temperature");
    REQUIRE_EQ(res.second, L(res.first), "the cost returned is the cost of the state returned");
    REQUIRE_EQ(res.second, L(best), "the best cost seen is returned");
    REQUIRE_EQ(res.first, best, "the first state that attained the best cost is returned");
    c.nontrivial(worse > 0 && improved > 0);
    c.label(t == init ? "no annealing" : "annealed");
    c.evals = 1 + step;
}
PBT("trace.double", 40000, 400000, "a run with an improvement and a worse neighbour") { trace<double>(c); }
PBT("trace.int64", 20000, 200000, "a run with an improvement and a worse neighbour") { trace<std::int64_t>(c); }
PBT("trace.int32", 10000, 100000, "a run with an improvement and a worse neighbour") { trace<std::int32_t>(c); }

/// worse states are accepted with the probability exp(-delta / temperature)
PBT("acceptance", 160, 1600, "a probability strictly between 0.05 and 0.95")
{
    const double temp  = static_cast<double>(1 + c.below(400)) / 8.0;
    const double p     = static_cast<double>(1 + c.below(98)) / 100.0;
    const double delta = -std::log(p) * temp;
    const auto   N     = 4000ull;
    // states: +1 above the base; each proposal from the base is worse by delta, each proposal from above returns
    std::uint64_t proposals = 0, accepted = 0, count = 0;
    // base < 0: an unbeatable optimum far below keeps the base from being the best state, so that going back down is no
    // new optimum
    auto cost  = [&](const int& s) { return s == 0 ? 0.0 : (s == 1 ? delta : -1e6); };
    bool prev_base = false;
    auto next  = [&](const int& s) -> int
    {
        ++count;
        if (s == 2)
        {
            return 0;  // leave the optimum (refused or not)
        }
        if (prev_base && s == 1)
        {
            ++accepted;
        }
        prev_base = false;
        if (s == 0)
        {
            ++proposals;
            prev_base = true;
            return 1;
        }
        return 0;
    };
    bool done  = false;
    auto sched = [&](const double) { done = true; return 0.0; };
    const auto seed = c.u64();
    c.note("temperature ", temp, ", delta ", delta, ", probability ", p);
    c.nontrivial(p > 0.05 && p < 0.95);
    fresh(seed, [&] { (void)simulated_annealing(0, temp, 0.0, N, cost, sched, next); });
    REQUIRE_THAT(done, "one temperature step");
    REQUIRE_THAT(proposals > 1000, "worse neighbours are proposed often: " << proposals);
    const double sigma = std::sqrt(p * (1 - p) / static_cast<double>(proposals));
    const double rate  = static_cast<double>(accepted) / static_cast<double>(proposals);
    REQUIRE_THAT(std::abs(rate - p) < 7 * sigma + 2.0 / static_cast<double>(proposals),
                 "acceptance rate " << rate << " of " << proposals << " proposals; expected " << p);
    c.evals = N;
}

PBT("schedules", 100000, 1000000, "a positive temperature")
{
    const double t = c.real(-1000, 1000);
    c.note(t);
    c.nontrivial(t > 0);
    REQUIRE_EQ(linear_temperature_schedule(t), t - 10.0, "the linear schedule subtracts 10");
    REQUIRE_EQ(geometric_temperature_schedule(t), t * 0.99, "the geometric schedule multiplies by 0.99");
}

/// several instances: each random state is drawn once, the overall minimum is returned
PBT("multi", 3000, 30000, "at least two instances with different results")
{
    const auto                instances = 1 + c.below(8);
    const auto                n         = 3 + c.below(20);
    std::vector<std::int64_t> land(n);
    for (auto& l : land)
    {
        l = c.in<std::int64_t>(-50, 50);
    }
    const auto                 salt = c.u64();
    const auto                 cycles = c.below(5);
    std::atomic<std::uint64_t> starts{0};
    // one flag per state: evaluated at all
    std::vector<std::atomic<int>> seen(n);
    std::vector<std::int64_t>     init(instances);
    for (auto& s : init)
    {
        s = static_cast<std::int64_t>(c.below(n));
    }
    auto rand_state = [&]() -> std::int64_t { return init.at(starts.fetch_add(1) % instances); };
    auto cost       = [&](const std::int64_t& s) -> std::int64_t
    {
        seen[static_cast<std::size_t>(s)] = 1;
        return land[static_cast<std::size_t>(s)];
    };
    auto next  = [&](const std::int64_t& s) -> std::int64_t { return static_cast<std::int64_t>(pbt::mix(salt, static_cast<std::uint64_t>(s)) % n); };
    auto sched = [&](const double t) { return t - 4.0; };
    c.note(instances, " instances over ", pbt::show(land), " from ", pbt::show(init));
    std::pair<std::int64_t, std::int64_t> r{};
    fresh(salt | 1u, [&] { r = multi_simulated_annealing(12.0, 1.0, cycles, instances, rand_state, cost, sched, next); });
    REQUIRE_EQ(starts.load(), instances, "one random state per instance");
    std::int64_t best = std::numeric_limits<std::int64_t>::max();
    for (std::size_t i = 0; i < n; ++i)
    {
        if (seen[i])
        {
            best = std::min(best, land[i]);
        }
    }
    for (auto s : init)
    {
        REQUIRE_THAT(seen[static_cast<std::size_t>(s)], "every instance evaluates its initial state");
    }
    REQUIRE_EQ(r.second, best, "the minimum over all instances");
    REQUIRE_EQ(r.second, land[static_cast<std::size_t>(r.first)], "the cost returned belongs to the state returned");
    std::vector<std::int64_t> ini{};
    for (auto s : init)
    {
        ini.push_back(land[static_cast<std::size_t>(s)]);
    }
    std::sort(ini.begin(), ini.end());
    c.nontrivial(instances >= 2 && ini.front() != ini.back());
}
