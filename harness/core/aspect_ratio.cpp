// aspect ratio iteration
#include "coord_common.hpp"

#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>

#include <algorithm>
#include <cstdint>
#include <iterator>
#include <map>
#include <set>
#include <utility>
#include <vector>

using namespace fiction;

template <typename C>
using it_t = aspect_ratio_iterator<C>;

/// the ordered factorizations of n
static std::set<std::pair<std::int64_t, std::int64_t>> factorizations(std::uint64_t n)
{
    std::set<std::pair<std::int64_t, std::int64_t>> s{};
    for (std::uint64_t a = 1; a * a <= n; ++a)
    {
        if (n % a == 0)
        {
            s.emplace(a - 1, n / a - 1);
            s.emplace(n / a - 1, a - 1);
        }
    }
    return s;
}

template <typename C>
std::pair<std::int64_t, std::int64_t> xy(const C& v)
{
    return {static_cast<std::int64_t>(v.x), static_cast<std::int64_t>(v.y)};
}
template <typename C>
std::uint64_t faces(const C& v)
{
    return static_cast<std::uint64_t>(static_cast<std::int64_t>(v.x) + 1) *
           static_cast<std::uint64_t>(static_cast<std::int64_t>(v.y) + 1);
}

/// walks through the sequence: each number of faces in turn, each factorization exactly once
template <typename C>
void walk(pbt::ctx& c)
{
    std::uint64_t start = 0;
    switch (c.below(6))
    {
        case 0: start = c.below(3); break;
        case 1: start = c.below(5000); break;
        case 2:
        {
            const auto r = 2 + c.below(1500);  // around perfect squares
            start        = r * r - c.below(3);
            break;
        }
        case 3: start = c.below(4000000); break;
        default: start = c.below(200); break;
    }
    const std::uint64_t count = start > 100000 ? 2 : 1 + c.below(14);
    const bool          post  = c.flip();
    c.note("start ", start, ", ", count, " face numbers, ", post ? "postfix" : "prefix");
    it_t<C>       it{start};
    std::uint64_t n = start == 0 ? 1 : start;
    bool          composite = false;
    for (std::uint64_t k = 0; k < count; ++k, ++n)
    {
        auto       want = factorizations(n);
        const auto size = want.size();
        composite |= size > 2;
        for (std::size_t i = 0; i < size; ++i)
        {
            const auto v = *it;
            REQUIRE_THAT(static_cast<std::int64_t>(v.z) == 0 && !v.is_dead(), "aspect ratios lie on the ground layer");
            REQUIRE_EQ(faces(v), n, "the number of faces at position " << i << " of " << n);
            REQUIRE_THAT(want.erase(xy(v)) == 1, "(" << xy(v).first << "," << xy(v).second << ") is emitted twice for " << n);
            // comparisons with a number of faces
            for (const auto m : {n, n - 1, n + 1, n + (std::uint64_t{1} << 32u), std::uint64_t{0}, ~std::uint64_t{0}})
            {
                REQUIRE_EQ(it == m, n == m, "number of faces " << n << " against " << m);
                REQUIRE_EQ(it != m, n != m, "number of faces " << n << " against " << m);
                REQUIRE_EQ(it < m, n < m, "number of faces " << n << " against " << m);
                REQUIRE_EQ(it <= m, n <= m, "number of faces " << n << " against " << m);
            }
            if (post)
            {
                const auto old = it++;
                REQUIRE_THAT(xy(*old) == xy(v), "the postfix increment returns the previous position");
                REQUIRE_THAT(old < it && old <= it && old != it && !(old == it) && !(it < old) && !(it <= old),
                             "the previous position comes before the current one at " << n);
            }
            else
            {
                auto& r = ++it;
                REQUIRE_THAT(&r == &it, "the prefix increment returns the iterator itself");
            }
        }
        REQUIRE_THAT(want.empty(), want.size() << " factorizations of " << n << " are missing, among them "
                                               << want.begin()->first << "," << want.begin()->second);
    }
    c.evals = count;
    c.nontrivial(composite);
}
PBT("aspect_ratio.walk.ucoord", 24000, 200000, "a number of faces with more than two factorizations") { walk<uco>(c); }
PBT("aspect_ratio.walk.cube", 12000, 100000, "a number of faces with more than two factorizations") { walk<cco>(c); }

/// a history of operations on several iterators (copies, assignments, increments) against a model position
PBT("aspect_ratio.history", 60000, 600000, "at least two iterators at different positions of one face number")
{
    // the model: the sequence as emitted by one reference walk, a position into it per iterator
    using I = it_t<uco>;
    struct slot
    {
        I           it;
        std::size_t pos;
    };
    const std::uint64_t                              base = 1 + c.below(60);
    std::vector<std::pair<std::int64_t, std::int64_t>> seq{};
    std::vector<std::uint64_t>                       nums{};
    for (std::uint64_t n = base; seq.size() < 80; ++n)
    {
        I          w{n};
        const auto k = factorizations(n).size();
        for (std::size_t i = 0; i < k; ++i, ++w)
        {
            seq.push_back(xy(*w));
            nums.push_back(n);
        }
    }
    std::vector<slot> s{};
    s.push_back({I{base}, 0});
    const auto ops = 3 + c.below(24);
    for (std::uint64_t o = 0; o < ops; ++o)
    {
        const auto a = c.below(s.size());
        switch (c.below(6))
        {
            case 0: s.push_back({I{s[a].it}, s[a].pos}); break;
            case 1:
            {
                const auto b = c.below(s.size());
                s[b].it      = s[a].it;
                s[b].pos     = s[a].pos;
                break;
            }
            case 2:
            {
                auto old = s[a].it++;
                s.push_back({old, s[a].pos});
                ++s[a].pos;
                break;
            }
            case 3:
            {
                I tmp{s[a].it};
                s[a].it = std::move(tmp);
                break;
            }
            default:
                ++s[a].it;
                ++s[a].pos;
                break;
        }
        for (const auto& x : s)
        {
            REQUIRE_THAT(xy(*x.it) == seq[x.pos], "position " << x.pos << " of the sequence from " << base << ": ("
                                                              << xy(*x.it).first << "," << xy(*x.it).second << ")");
        }
    }
    c.note("base ", base, ", ", s.size(), " iterators after ", ops, " operations");
    for (const auto& x : s)
    {
        for (const auto& y : s)
        {
            c.nontrivial(x.pos != y.pos && nums[x.pos] == nums[y.pos]);
            REQUIRE_EQ(x.it == y.it, x.pos == y.pos, "positions " << x.pos << " and " << y.pos);
            REQUIRE_EQ(x.it != y.it, x.pos != y.pos, "positions " << x.pos << " and " << y.pos);
            REQUIRE_EQ(x.it < y.it, x.pos < y.pos, "positions " << x.pos << " and " << y.pos);
            REQUIRE_EQ(x.it <= y.it, x.pos <= y.pos, "positions " << x.pos << " and " << y.pos);
        }
    }
}

/// the documented emission order within a face number: pairs (a, b), (b, a) by ascending smaller factor
PBT("aspect_ratio.order", 20000, 200000, "a number of faces with more than two factorizations")
{
    const auto n = 1 + c.below(c.flip() ? 5000 : 100);
    it_t<uco>  it{n};
    c.note("n ", n);
    std::size_t emitted = 0;
    for (std::int64_t a = 1; a * a <= static_cast<std::int64_t>(n); ++a)
    {
        if (n % static_cast<std::uint64_t>(a) == 0)
        {
            const auto b = static_cast<std::int64_t>(n) / a;
            REQUIRE_THAT(xy(*it) == std::make_pair(a - 1, b - 1), a << " x " << b << " comes next for " << n);
            ++it;
            ++emitted;
            if (a != b)
            {
                REQUIRE_THAT(xy(*it) == std::make_pair(b - 1, a - 1), b << " x " << a << " comes next for " << n);
                ++it;
                ++emitted;
            }
        }
    }
    REQUIRE_THAT(it == n + 1, "all factorizations of " << n << " are emitted");
    c.nontrivial(emitted > 2);
}
