// wrapping, bounded enumeration, and area / volume
#include "coord_common.hpp"

#include <algorithm>
#include <iterator>
#include <ranges>
#include <set>
#include <vector>

using namespace fiction;

/// reference for wrap(): the documentation, dimension by dimension in the order of the type
template <typename C>
plain ref_wrap(plain p, const plain& ar)
{
    if constexpr (std::is_same_v<C, sco>)
    {
        // order x, z, y; only the SiDB pair position (z) is bounded by one bit
        if (p.x > ar.x)
        {
            p.x = 0;
            ++p.z;
        }
        if (p.z > 1)
        {
            p.z = 0;
            ++p.y;
        }
        if (p.y > ar.y)
        {
            return {ar.x, ar.y, ar.z, true};
        }
        return p;
    }
    else
    {
        if (p.x > ar.x)
        {
            p.x = 0;
            ++p.y;
        }
        if (p.y > ar.y)
        {
            p.y = 0;
            ++p.z;
        }
        if (p.z > ar.z)
        {
            return {ar.x, ar.y, ar.z, true};
        }
        return p;
    }
}

template <typename C>
void wrap_check(pbt::ctx& c)
{
    const std::int64_t cap = c.pick({3, 6, 70, 1000000});
    plain              ar{c.edgy<std::int64_t>(0, cap), c.edgy<std::int64_t>(0, cap), 0, false};
    ar.z = std::is_same_v<C, cco> ? c.in<std::int64_t>(0, 3) : (std::is_same_v<C, sco> ? 1 : c.in<std::int64_t>(0, 1));
    plain p{c.in<std::int64_t>(0, ar.x + 2), c.in<std::int64_t>(0, ar.y + 2), 0, false};
    p.z = std::is_same_v<C, cco> ? c.in<std::int64_t>(0, ar.z + 1) : c.in<std::int64_t>(0, 1);
    c.note(sp(p), " wrapped to ", sp(ar));
    c.nontrivial(p.x > ar.x || p.y > ar.y || p.z > ar.z);
    const auto want = ref_wrap<C>(p, ar);
    c.label(want.d ? "leaves the boundary" : (want == p ? "unchanged" : "wraps"));
    auto v = to_c<C>(p);
    v.wrap(to_c<C>(ar));
    REQUIRE_THAT(of_c(v) == want, sp(p) << " wrapped to " << sp(ar) << " gives " << sp(of_c(v)) << ", not " << sp(want));
    if (!want.d)
    {
        REQUIRE_THAT(of_c(v).x <= ar.x && of_c(v).y <= ar.y && of_c(v).z <= ar.z, "the result lies in the boundary");
    }
}
PBT("wrap.ucoord", 150000, 1500000, "a coordinate beyond the boundary") { wrap_check<uco>(c); }
PBT("wrap.cube", 150000, 1500000, "a coordinate beyond the boundary") { wrap_check<cco>(c); }
PBT("wrap.siqad", 150000, 1500000, "a coordinate beyond the boundary") { wrap_check<sco>(c); }

template <typename C>
std::vector<plain> reference_enumeration(const plain& ar)
{
    std::vector<plain> out;
    if constexpr (std::is_same_v<C, sco>)
    {
        for (std::int64_t y = 0; y <= ar.y; ++y)
        {
            for (std::int64_t z = 0; z <= 1; ++z)
            {
                for (std::int64_t x = 0; x <= ar.x; ++x)
                {
                    out.push_back({x, y, z, false});
                }
            }
        }
    }
    else
    {
        for (std::int64_t z = 0; z <= ar.z; ++z)
        {
            for (std::int64_t y = 0; y <= ar.y; ++y)
            {
                for (std::int64_t x = 0; x <= ar.x; ++x)
                {
                    out.push_back({x, y, z, false});
                }
            }
        }
    }
    return out;
}

template <typename C>
void iterate_check(pbt::ctx& c)
{
    plain ar{c.in<std::int64_t>(0, 9), c.in<std::int64_t>(0, 9), 0, false};
    if (c.chance(1, 10))
    {
        ar.x = c.in<std::int64_t>(0, 300);
    }
    ar.z = std::is_same_v<C, cco> ? c.in<std::int64_t>(0, 4) : (std::is_same_v<C, sco> ? 1 : c.in<std::int64_t>(0, 1));
    const auto all = reference_enumeration<C>(ar);
    const auto arc = to_c<C>(ar);
    // the range starts at any coordinate inside the boundary
    const auto start = c.flip() ? 0 : c.below(all.size());
    c.note("boundary ", sp(ar), " from ", sp(all[start]));
    c.nontrivial(all.size() >= 4);
    c.label(start == 0 ? "from the origin" : "from inside");
    coord_iterator<C>       it{arc, to_c<C>(all[start])};
    const coord_iterator<C> end{arc, arc.get_dead()};
    const bool              postfix = c.flip();
    for (std::size_t i = start; i < all.size(); ++i)
    {
        REQUIRE_THAT(it != end && !(it == end), "the iteration ends early, after " << i << " of " << all.size());
        REQUIRE_THAT(of_c(*it) == all[i], "position " << i << " is " << sp(of_c(*it)) << ", not " << sp(all[i]));
        const coord_iterator<C> direct{arc, to_c<C>(all[i])};
        REQUIRE_THAT(it == direct, "an iterator constructed at the position equals the advanced one");
        if (i + 1 < all.size())
        {
            const coord_iterator<C> nxt{arc, to_c<C>(all[i + 1])};
            REQUIRE_THAT(it < nxt && it <= nxt && !(nxt < it) && !(nxt <= it) && it <= it && !(it < it),
                         "iterator order follows the enumeration");
        }
        if (postfix)
        {
            const auto before = it;
            const auto old    = it++;
            REQUIRE_THAT(old == before && of_c(*old) == all[i], "postfix increment returns the old position");
        }
        else
        {
            auto& r = ++it;
            REQUIRE_THAT(&r == &it, "prefix increment returns itself");
        }
    }
    REQUIRE_THAT(it == end && !(it != end), "the end is reached after the last coordinate, at " << sp(of_c(*it)));
    ++it;
    REQUIRE_THAT(it == end, "advancing an iterator that is out of bounds keeps it at the end");
    // the same through a std::ranges::subrange, as the layouts expose it
    std::size_t n = 0;
    for (const auto& q : std::ranges::subrange{coord_iterator<C>{arc, C{0, 0}}, end})
    {
        REQUIRE_THAT(n < all.size() && of_c(q) == all[n], "range-based iteration at " << n);
        ++n;
    }
    REQUIRE_EQ(n, all.size(), "range-based iteration visits everything");
    REQUIRE_EQ(static_cast<std::size_t>(volume(arc)), all.size(), "volume() counts the enumerated coordinates");
    REQUIRE_EQ(static_cast<std::size_t>(area(arc)) * (std::is_same_v<C, sco> ? 1u : static_cast<std::size_t>(ar.z + 1)),
               all.size(), "area() counts the coordinates of one layer");
}
PBT("enumerate.ucoord", 12000, 120000, "at least four coordinates") { iterate_check<uco>(c); }
PBT("enumerate.cube", 12000, 120000, "at least four coordinates") { iterate_check<cco>(c); }
PBT("enumerate.siqad", 12000, 120000, "at least four coordinates") { iterate_check<sco>(c); }

template <typename C>
void start_check(pbt::ctx& c)
{
    // starts outside the boundary: negative components are clamped to zero, then the coordinate is wrapped
    plain ar{c.in<std::int64_t>(0, 12), c.in<std::int64_t>(0, 12), 0, false};
    ar.z = std::is_same_v<C, cco> ? c.in<std::int64_t>(0, 3) : (std::is_same_v<C, sco> ? 1 : c.in<std::int64_t>(0, 1));
    const std::int64_t lo = std::is_same_v<C, uco> ? 0 : -5;
    plain p{c.in<std::int64_t>(lo, ar.x + 3), c.in<std::int64_t>(lo, ar.y + 3), 0, false};
    p.z = std::is_same_v<C, cco> ? c.in<std::int64_t>(lo, ar.z + 2) : c.in<std::int64_t>(0, 1);
    c.note("start ", sp(p), " in ", sp(ar));
    c.nontrivial(p.x < 0 || p.y < 0 || p.z < 0 || p.x > ar.x || p.y > ar.y || p.z > ar.z);
    plain q{std::max<std::int64_t>(p.x, 0), std::max<std::int64_t>(p.y, 0), std::max<std::int64_t>(p.z, 0), false};
    const auto              want = ref_wrap<C>(q, ar);
    const coord_iterator<C> it{to_c<C>(ar), to_c<C>(p)};
    REQUIRE_THAT(of_c(*it) == want, "starts at " << sp(of_c(*it)) << ", not " << sp(want));
}
PBT("start.ucoord", 60000, 600000, "a start outside the boundary") { start_check<uco>(c); }
PBT("start.cube", 60000, 600000, "a start outside the boundary") { start_check<cco>(c); }
PBT("start.siqad", 60000, 600000, "a start outside the boundary") { start_check<sco>(c); }

template <typename C>
void area_check(pbt::ctx& c)
{
    auto p = gen_plain<C>(c);
    p.d    = false;
    const auto ab = [](std::int64_t v) { return static_cast<unsigned __int128>(v < 0 ? -v : v); };
    const auto v  = to_c<C>(p);
    c.note(sp(p));
    c.nontrivial(p.x != 0 && p.y != 0);
    unsigned __int128 a = 0;
    unsigned __int128 vol = 0;
    if constexpr (std::is_same_v<C, sco>)
    {
        a   = (ab(p.x) + 1) * (2 * ab(p.y) + ab(p.z) + 1);
        vol = a;
    }
    else
    {
        a   = (ab(p.x) + 1) * (ab(p.y) + 1);
        vol = a * (ab(p.z) + 1);
    }
    if (a <= ~0ull)
    {
        REQUIRE_EQ(static_cast<unsigned __int128>(area(v)), a, "area of " << sp(p));
    }
    if (vol <= ~0ull)
    {
        c.label("volume fits 64 bits");
        REQUIRE_EQ(static_cast<unsigned __int128>(volume(v)), vol, "volume of " << sp(p));
    }
}
PBT("area.ucoord", 100000, 1000000, "both dimensions extended") { area_check<uco>(c); }
PBT("area.cube", 100000, 1000000, "both dimensions extended") { area_check<cco>(c); }
PBT("area.siqad", 100000, 1000000, "both dimensions extended") { area_check<sco>(c); }
