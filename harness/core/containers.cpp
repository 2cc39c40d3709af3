// container utilities
#include "pbt.hpp"

#include <fiction/technology/constants.hpp>
#include <fiction/utils/array_utils.hpp>
#include <fiction/utils/execution_utils.hpp>
#include <fiction/utils/map_utils.hpp>
#include <fiction/utils/stl_utils.hpp>

#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <ctime>
#include <deque>
#include <functional>
#include <map>
#include <numeric>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include <ctime>
#include <atomic>
#include <thread>

using namespace fiction;

template <typename A, typename B>
void two_of(pbt::ctx& c)
{
    const auto alphabet = 2 + c.below(4);
    A          a{};
    B          b{};
    for (auto n = c.below(12); n > 0; --n)
    {
        a.push_back(static_cast<int>(c.below(alphabet)));
    }
    for (auto n = c.below(6); n > 0; --n)
    {
        b.push_back(static_cast<int>(c.below(alphabet)));
    }
    std::size_t want = a.size();
    for (std::size_t i = 0; i + 1 < a.size() && want == a.size(); ++i)
    {
        for (std::size_t j = 0; j + 1 < b.size(); ++j)
        {
            if (a[i] == b[j] && a[i + 1] == b[j + 1])
            {
                want = i;
                break;
            }
        }
    }
    c.note(pbt::show(std::vector<int>(a.begin(), a.end())), " for ", pbt::show(std::vector<int>(b.begin(), b.end())));
    c.nontrivial(a.size() >= 2 && b.size() >= 2);
    c.label(want == a.size() ? "not found" : "found");
    const auto before_a = a;
    const auto before_b = b;
    const auto it       = find_first_two_of(a.begin(), a.end(), b.begin(), b.end());
    REQUIRE_EQ(static_cast<std::size_t>(it - a.begin()), want, "the first shared two-element sub-sequence");
    REQUIRE_THAT(a == before_a && b == before_b, "the ranges are not modified");
}
PBT("find_first_two_of.vector", 300000, 3000000, "two elements on both sides") { two_of<std::vector<int>, std::vector<int>>(c); }
PBT("find_first_two_of.deque", 100000, 1000000, "two elements on both sides") { two_of<std::deque<int>, std::vector<int>>(c); }

template <typename Q, typename Less>
void queue_history(pbt::ctx& c, Less less)
{
    Q                q{};
    std::vector<int> model{};
    const auto       ops = 2 + c.below(40);
    bool             popped = false;
    for (std::uint64_t o = 0; o < ops; ++o)
    {
        const int v = static_cast<int>(c.below(12));
        switch (c.below(5))
        {
            case 0:
                if (!model.empty())
                {
                    // the greatest element by the order leaves
                    const auto m = std::max_element(model.begin(), model.end(), less);
                    REQUIRE_EQ(q.top(), *m, "the top");
                    q.pop();
                    model.erase(m);
                    popped = true;
                }
                break;
            case 1:
                q.emplace(v);
                model.push_back(v);
                break;
            default:
                q.push(v);
                model.push_back(v);
                break;
        }
        REQUIRE_EQ(q.size(), model.size(), "the size");
        REQUIRE_EQ(q.empty(), model.empty(), "emptiness");
        const Q& cq = q;
        for (int x = -1; x < 13; ++x)
        {
            const bool in = std::find(model.begin(), model.end(), x) != model.end();
            REQUIRE_EQ(cq.contains(x), in, "contains " << x);
            REQUIRE_EQ(q.find(x) != q.end(), in, "find " << x);
            REQUIRE_EQ(cq.find(x) != cq.end(), in, "find " << x);
            if (in)
            {
                REQUIRE_EQ(*q.find(x), x, "find returns the value");
                REQUIRE_EQ(*cq.find(x), x, "find returns the value");
            }
        }
        auto all = std::vector<int>(q.begin(), q.end());
        auto call = std::vector<int>(cq.cbegin(), cq.cend());
        auto m    = model;
        std::sort(all.begin(), all.end());
        std::sort(call.begin(), call.end());
        std::sort(m.begin(), m.end());
        REQUIRE_THAT(all == m && call == m, "iteration visits exactly the contents");
        if (!model.empty())
        {
            REQUIRE_EQ(q.top(), *std::max_element(model.begin(), model.end(), less), "the top");
        }
    }
    c.nontrivial(popped && model.size() >= 2);
    c.note(ops, " operations, ", model.size(), " left");
}
PBT("priority_queue.max", 20000, 200000, "an element was removed and at least two are left")
{
    queue_history<searchable_priority_queue<int>>(c, std::less<int>{});
}
PBT("priority_queue.min", 20000, 200000, "an element was removed and at least two are left")
{
    queue_history<searchable_priority_queue<int, std::vector<int>, std::greater<>>>(c, std::greater<int>{});
}

template <typename M>
void tolerant(pbt::ctx& c)
{
    constexpr double tol = constants::ERROR_MARGIN;
    M                m{};
    std::vector<double> keys{};
    const auto       n = c.below(10);
    // keys on a grid much coarser than the tolerance
    for (std::uint64_t i = 0; i < n; ++i)
    {
        keys.push_back(static_cast<double>(c.in<std::int64_t>(-2000, 2000)) / 1000.0);
        m[keys.back()] = static_cast<int>(i);
    }
    const bool   present = !keys.empty() && c.flip();
    const double base    = present ? c.pick(keys) : static_cast<double>(c.in<std::int64_t>(-2000, 2000)) / 1000.0;
    const double frac    = static_cast<double>(c.in<std::int64_t>(-30, 30)) / 10.0;  // multiples of the tolerance
    const double key     = base + frac * tol;
    c.note("key ", base, " + ", frac, " tolerances in ", pbt::show(keys));
    if (std::abs(std::abs(frac) - 1.0) < 0.05)
    {
        throw pbt::discard{};  // at the threshold, where rounding decides
    }
    bool want = false;
    double which = 0;
    for (double k : keys)
    {
        if (std::abs(k - key) < tol)
        {
            want  = true;
            which = k;
        }
    }
    c.nontrivial(!keys.empty() && frac != 0.0);
    c.label(want ? "found" : "not found");
    const auto it = find_key_with_tolerance(m, key);
    REQUIRE_EQ(it != m.cend(), want, "key " << key);
    if (want)
    {
        REQUIRE_EQ(it->first, which, "the key found");
        REQUIRE_EQ(it->second, m.at(which), "the value found");
    }
}
PBT("tolerant_key.map", 150000, 1500000, "a key next to one of the map's keys") { tolerant<std::map<double, int>>(c); }
PBT("tolerant_key.unordered", 100000, 1000000, "a key next to one of the map's keys") { tolerant<std::unordered_map<double, int>>(c); }

template <std::size_t N>
void arrays(pbt::ctx& c)
{
    const int  v = c.edgy<int>(-100000, 100000);
    const auto a = create_array<N>(v);
    static_assert(std::is_same_v<decltype(create_array<N>(1)), std::array<int, N>>);
    for (auto x : a)
    {
        REQUIRE_EQ(x, v, "every field is " << v);
    }
    const auto s = create_array<N>(std::string{"x" + std::to_string(v)});
    for (const auto& x : s)
    {
        REQUIRE_EQ(x, "x" + std::to_string(v), "every field");
    }
    std::array<int, N> in{};
    for (auto& x : in)
    {
        x = c.edgy<int>(-100000, 100000);
    }
    const auto d  = convert_array<double>(in);
    const auto ch = convert_array<std::int8_t>(in);
    static_assert(std::is_same_v<std::decay_t<decltype(d)>, std::array<double, N>>);
    for (std::size_t i = 0; i < N; ++i)
    {
        REQUIRE_EQ(d[i], static_cast<double>(in[i]), "field " << i);
        REQUIRE_EQ(ch[i], static_cast<std::int8_t>(in[i]), "field " << i);
    }
    std::array<std::array<int, N>, 3> in2{};
    for (auto& r : in2)
    {
        for (auto& x : r)
        {
            x = c.edgy<int>(-100000, 100000);
        }
    }
    const auto d2 = convert_array_of_arrays<std::int64_t>(in2);
    static_assert(std::is_same_v<std::decay_t<decltype(d2)>, std::array<std::array<std::int64_t, N>, 3>>);
    for (std::size_t i = 0; i < 3; ++i)
    {
        for (std::size_t j = 0; j < N; ++j)
        {
            REQUIRE_EQ(d2[i][j], static_cast<std::int64_t>(in2[i][j]), "field " << i << "," << j);
        }
    }
    c.note(N, " fields of ", v);
    c.nontrivial(N >= 2);
}
PBT("arrays", 60000, 600000, "at least two fields")
{
    switch (c.below(4))
    {
        case 0: arrays<1>(c); break;
        case 1: arrays<2>(c); break;
        case 2: arrays<5>(c); break;
        default: arrays<9>(c); break;
    }
}

PBT("localtime", 20000, 200000, "a time off the epoch")
{
    const auto t = static_cast<std::time_t>(c.edgy<std::int64_t>(0, 1ll << 40));
    c.note(t);
    c.nontrivial(t != 0);
    auto tm = safe_localtime(t);
    REQUIRE_EQ(std::mktime(&tm), t, "the broken-down time denotes the same instant");
}

/// A stand-in for the C library's conversion into its shared buffer, which does what the original does but takes longer,
/// so that an unprotected use of the buffer by several threads shows. Thread-safe uses of it stay correct.
extern "C" struct tm* localtime(const time_t* t) noexcept
{
    static struct tm shared
    {};
    localtime_r(t, &shared);
    ::usleep(100);
    return &shared;
}

/// several threads convert different times at once; each sees its own
PBT("localtime.concurrent", 16, 160, "at least two threads")
{
    const auto threads = 2 + c.below(4);
    struct job
    {
        std::time_t t;
        std::tm     want;
    };
    std::vector<job> jobs{};
    for (std::uint64_t i = 0; i < threads; ++i)
    {
        job j{static_cast<std::time_t>(c.below(1ull << 36u)), {}};
        j.want = safe_localtime(j.t);
        auto copy = j.want;
        REQUIRE_EQ(std::mktime(&copy), j.t, "the broken-down time denotes the same instant");
        jobs.push_back(j);
    }
    c.note(threads, " threads");
    c.nontrivial(true);
    std::atomic<bool>        bad{false};
    std::vector<std::thread> ts{};
    for (const auto& j : jobs)
    {
        ts.emplace_back(
            [&j, &bad]
            {
                for (int i = 0; i < 2000 && !bad; ++i)
                {
                    const auto r = safe_localtime(j.t);
                    if (r.tm_year != j.want.tm_year || r.tm_yday != j.want.tm_yday || r.tm_hour != j.want.tm_hour ||
                        r.tm_min != j.want.tm_min || r.tm_sec != j.want.tm_sec || r.tm_mon != j.want.tm_mon ||
                        r.tm_mday != j.want.tm_mday || r.tm_wday != j.want.tm_wday)
                    {
                        bad = true;
                    }
                }
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    REQUIRE_THAT(!bad, "a thread received the local time of another thread's instant");
}
