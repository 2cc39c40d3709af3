// hash combination and hashes of composite values
#include "coord_common.hpp"

#include <fiction/technology/cell_ports.hpp>
#include <fiction/utils/hash.hpp>

#include <algorithm>
#include <array>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>

using namespace fiction;

template <typename T>
std::size_t H(const T& v)
{
    return std::hash<T>{}(v);
}

/// values drawn from a small domain, so that equal ones are frequent
PBT("equal.array", 150000, 1500000, "at least one pair of equal values")
{
    std::array<int, 3> a{}, b{};
    for (auto* x : {&a, &b})
    {
        for (auto& e : *x)
        {
            e = static_cast<int>(c.below(2)) * 1000003 - static_cast<int>(c.below(2));
        }
    }
    c.note(pbt::show(a), " ", pbt::show(b));
    c.nontrivial(a == b);
    REQUIRE_THAT(a != b || H(a) == H(b), "equal arrays have equal hashes");
    auto copy = a;
    REQUIRE_EQ(H(copy), H(a), "a copy has the same hash");
}
template <typename S>
void equal_sets(pbt::ctx& c)
{
    std::vector<int> v{};
    for (auto n = c.below(7); n > 0; --n)
    {
        v.push_back(static_cast<int>(c.in<std::int64_t>(-5, 5)));
    }
    S    s(v.begin(), v.end());
    auto w = v;
    c.shuffle(w);
    S t{};
    for (int x : w)
    {
        t.insert(x);
    }
    c.note(pbt::show(v));
    c.nontrivial(v.size() >= 2);
    REQUIRE_THAT(s == t, "the same elements");
    REQUIRE_EQ(H(s), H(t), "the hash does not depend on the order of insertion");
    // detour: add and remove
    t.insert(77);
    t.erase(77);
    REQUIRE_EQ(H(s), H(t), "the hash does not depend on the history");
}
PBT("equal.set", 100000, 1000000, "at least two insertions") { equal_sets<std::set<int>>(c); }
PBT("equal.multiset", 100000, 1000000, "at least two insertions") { equal_sets<std::multiset<int>>(c); }

PBT("combine.sequential", 150000, 1500000, "at least three values")
{
    // folding values one at a time equals combining them in one call
    std::vector<std::uint64_t> v(5);
    for (auto& x : v)
    {
        x = c.edgy<std::uint64_t>(0, ~0ull);
    }
    const std::size_t seed = static_cast<std::size_t>(c.u64());
    std::size_t       a = seed, b = seed, d = seed;
    const auto        n = 1 + c.below(5);
    switch (n)
    {
        case 1: hash_combine(a, v[0]); break;
        case 2: hash_combine(a, v[0], v[1]); break;
        case 3: hash_combine(a, v[0], v[1], v[2]); break;
        case 4: hash_combine(a, v[0], v[1], v[2], v[3]); break;
        default: hash_combine(a, v[0], v[1], v[2], v[3], v[4]); break;
    }
    for (std::size_t i = 0; i < n; ++i)
    {
        hash_combine(b, v[i]);
    }
    c.note(n, " values from seed ", seed);
    c.nontrivial(n >= 3);
    REQUIRE_EQ(a, b, "combining " << n << " values at once equals combining them in turn");
    // the last value always matters
    for (std::size_t i = 0; i + 1 < n; ++i)
    {
        hash_combine(d, v[i]);
    }
    hash_combine(d, v[n - 1] ^ (1ull << c.below(64)));
    REQUIRE_THAT(a != d, "another last value gives another hash");
    // mixed types
    std::size_t       e = seed, f = seed;
    const std::string str = "s" + std::to_string(v[0] % 100);
    hash_combine(e, str, v[1], static_cast<int>(v[2]));
    hash_combine(f, str);
    hash_combine(f, v[1]);
    hash_combine(f, static_cast<int>(v[2]));
    REQUIRE_EQ(e, f, "mixed types");
}

PBT("unordered.commutes", 150000, 1500000, "at least three values")
{
    std::vector<cco> v{};
    for (auto n = c.below(8); n > 0; --n)
    {
        const cco x{c.in<std::int64_t>(-6, 6), c.in<std::int64_t>(-6, 6), c.in<std::int64_t>(0, 2)};
        if (H(x) != 0)  // a value that hashes to zero is neutral by construction
        {
            v.push_back(x);
        }
    }
    const std::size_t seed = static_cast<std::size_t>(c.u64());
    auto              fold = [&](const std::vector<cco>& w)
    {
        std::size_t s = seed;
        for (const auto& x : w)
        {
            hash_combine_unordered(s, x);
        }
        return s;
    };
    const auto h = fold(v);
    auto       w = v;
    c.shuffle(w);
    c.note(v.size(), " cells");
    c.nontrivial(v.size() >= 3);
    REQUIRE_EQ(fold(w), h, "the order does not matter");
    // one more occurrence matters
    if (!v.empty())
    {
        w.push_back(v[0]);
        REQUIRE_THAT(fold(w) != h, "another occurrence of a value changes the hash");
        w.push_back(v[0]);
        REQUIRE_THAT(fold(w) != h, "two more occurrences of a value change the hash");
        const auto more = c.below(5);
        for (std::uint64_t i = 0; i < more; ++i)
        {
            w.push_back(v[0]);
        }
        REQUIRE_THAT(fold(w) != h, "more occurrences of a value change the hash");
        // another value as often as this one
        cco other = v[0];
        other.x += 1;
        auto u = v;
        for (std::uint64_t i = 0; i < 2 + more; ++i)
        {
            u.push_back(other);
        }
        REQUIRE_THAT(H(other) == H(v[0]) || fold(u) != fold(w), "which value occurs more often matters");
        w.resize(v.size());
        w.pop_back();
        REQUIRE_THAT(fold(w) != h, "a missing value changes the hash");
    }
}

/// two-cell sets on a grid hardly ever collide (the documented purpose of the scrambling step)
template <typename C>
void unordered_spread(pbt::ctx& c)
{
    const auto                                       side = c.in<std::int64_t>(3, 8);
    const std::int64_t                               ox = c.in<std::int64_t>(-50, 50), oy = c.in<std::int64_t>(-50, 50);
    std::vector<C>                                   cells{};
    for (std::int64_t x = 0; x < side; ++x)
    {
        for (std::int64_t y = 0; y < side; ++y)
        {
            if constexpr (std::is_same_v<C, uco>)
            {
                cells.push_back(C{x + 50 + ox, y + 50 + oy, 0});
            }
            else
            {
                cells.push_back(C{ox + x, oy + y, 0});
            }
        }
    }
    std::unordered_set<std::size_t> seen{};
    std::size_t                     sets = 0;
    for (std::size_t i = 0; i < cells.size(); ++i)
    {
        for (std::size_t j = i + 1; j < cells.size(); ++j)
        {
            std::size_t s = 0;
            hash_combine_unordered(s, cells[i]);
            hash_combine_unordered(s, cells[j]);
            seen.insert(s);
            ++sets;
        }
    }
    // a sum of unscrambled linear hashes has about (2 * side)^2 distinct values
    REQUIRE_THAT(seen.size() * 100 >= sets * 99, seen.size() << " distinct hashes of " << sets << " two-cell sets of a "
                                                             << side << "x" << side << " grid");
    c.evals = seen.size();
    c.note(side, "x", side, " at ", ox, ",", oy);
    c.nontrivial(side >= 4);
}
PBT("unordered.spread.cube", 600, 6000, "a grid of at least 16 cells") { unordered_spread<cco>(c); }
PBT("unordered.spread.siqad", 600, 6000, "a grid of at least 16 cells") { unordered_spread<sco>(c); }
PBT("unordered.spread.offset", 600, 6000, "a grid of at least 16 cells") { unordered_spread<uco>(c); }

/// composite hashes depend on every component and on their order: over a grid of small values, most hashes differ
PBT("spread", 3000, 30000, "a grid of at least 100 pairs")
{
    const auto n    = 10 + static_cast<int>(c.below(30));
    const int  base = static_cast<int>(c.in<std::int64_t>(-1000, 1000));
    std::unordered_set<std::size_t> p{}, a{}, s{}, ms{};
    std::size_t                     sets = 0, msets = 0;
    for (int i = 0; i < n; ++i)
    {
        for (int j = 0; j < n; ++j)
        {
            p.insert(H(std::pair<int, int>{base + i, base + j}));
            a.insert(H(std::array<int, 2>{base + i, base + j}));
            if (i < j)
            {
                ++sets;
                s.insert(H(std::set<int>{base + i, base + j}));
            }
            if (i <= j)
            {
                ++msets;
                ms.insert(H(std::multiset<int>{base + i, base + j}));
            }
        }
    }
    const auto all = static_cast<std::size_t>(n) * static_cast<std::size_t>(n);
    c.note(n, "x", n, " from ", base, ": distinct ", p.size(), " ", a.size(), " ", s.size(), " ", ms.size());
    c.nontrivial(all >= 100);
    c.evals = all;
    // far below what any mixing of both components gives, far above what one that ignores a component can reach
    REQUIRE_THAT(p.size() * 10 >= all * 6, p.size() << " distinct hashes of " << all << " pairs");
    REQUIRE_THAT(a.size() * 10 >= all * 6, a.size() << " distinct hashes of " << all << " arrays");
    REQUIRE_THAT(s.size() * 10 >= sets * 6, s.size() << " distinct hashes of " << sets << " sets");
    REQUIRE_THAT(ms.size() * 10 >= msets * 6, ms.size() << " distinct hashes of " << msets << " multisets");
}
