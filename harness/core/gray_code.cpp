// Gray code iteration
#include "pbt.hpp"

#include <fiction/algorithms/iter/gray_code_iterator.hpp>

#include <bit>
#include <cstdint>
#include <iterator>
#include <limits>
#include <set>
#include <vector>

using fiction::gray_code_iterator;
using u64 = std::uint64_t;

static constexpr u64 MAX = std::numeric_limits<u64>::max();

/// reference: bit k of the code is the exclusive or of bits k and k+1 of the number
static u64 ref_gray(u64 n)
{
    u64 r = 0;
    for (unsigned k = 0; k < 64; ++k)
    {
        const u64 lo = (n >> k) & 1u;
        const u64 hi = k + 1 < 64 ? (n >> (k + 1)) & 1u : 0u;
        r |= (lo ^ hi) << k;
    }
    return r;
}
static u64 ref_inverse(u64 g)
{
    u64 n = 0;
    u64 b = 0;
    for (int k = 63; k >= 0; --k)
    {
        b ^= (g >> static_cast<unsigned>(k)) & 1u;
        n |= b << static_cast<unsigned>(k);
    }
    return n;
}
static u64 gen(pbt::ctx& c)
{
    return c.edgy<u64>(0, MAX);
}

PBT("gray.code", 400000, 4000000, "a number of at least 2")
{
    const u64 n = gen(c);
    c.note(n);
    c.nontrivial(n >= 2);
    const gray_code_iterator it{n};
    REQUIRE_EQ(*it, ref_gray(n), "the code of " << n);
    REQUIRE_EQ(ref_inverse(*it), n, "the code is invertible");
    if (n != MAX)
    {
        auto nx = it;
        ++nx;
        REQUIRE_EQ(std::popcount(*it ^ *nx), 1, "successive codes of " << n << " differ in one bit");
        REQUIRE_EQ(std::popcount(it[0] ^ it[1]), 1, "successive codes of " << n << " differ in one bit");
    }
    const u64 idx = c.edgy<u64>(0, MAX - n);
    REQUIRE_EQ(it[idx], ref_gray(n + idx), "the code at index " << idx << " from " << n);
}

PBT("gray.range", 30000, 300000, "at least five codes")
{
    // a range of 2^k aligned codes is a permutation of the numbers of the range's width
    const auto k    = static_cast<unsigned>(c.below(9));
    const u64  base = (gen(c) >> k) << k;
    std::set<u64>      seen{};
    gray_code_iterator it{base};
    const u64          prefix = ref_gray(base >> k);
    for (u64 i = 0; i < (1ull << k); ++i, ++it)
    {
        REQUIRE_EQ(k == 0 ? *it : *it >> k, prefix, "the leading bits are those of the leading number");
        REQUIRE_THAT(seen.insert(*it).second, "a code is repeated");
    }
    c.nontrivial(k >= 3);
    c.note(base, " width ", k);
}

PBT("gray.history", 150000, 1500000, "at least one step back and one step forward")
{
    struct slot
    {
        gray_code_iterator it;
        u64                start;
        u64                cur;
    };
    std::vector<slot> s{};
    const u64         origin = c.flip() ? c.in<std::int64_t>(0, 64) : (gen(c) >> 1u) + 5000;
    s.push_back({gray_code_iterator{origin}, origin, origin});
    const auto ops = 2 + c.below(20);
    bool       back = false, forth = false;
    for (u64 o = 0; o < ops; ++o)
    {
        const auto a = static_cast<std::size_t>(c.below(s.size()));
        const auto m = static_cast<int>(c.below(40));
        switch (c.below(12))
        {
            case 0:
                REQUIRE_EQ(*++s[a].it, ref_gray(++s[a].cur), "prefix increment");
                forth = true;
                break;
            case 1:
            {
                const auto old = s[a].it++;
                s.push_back({old, s[a].start, s[a].cur});
                ++s[a].cur;
                forth = true;
                break;
            }
            case 2:
                if (s[a].cur > 0)
                {
                    REQUIRE_EQ(*--s[a].it, ref_gray(--s[a].cur), "prefix decrement");
                    back = true;
                }
                break;
            case 3:
                if (s[a].cur > 0)
                {
                    const auto old = s[a].it--;
                    s.push_back({old, s[a].start, s[a].cur});
                    --s[a].cur;
                    back = true;
                }
                break;
            case 4:
                s[a].it += m;
                s[a].cur += static_cast<u64>(m);
                forth = true;
                break;
            case 5:
                if (s[a].cur >= static_cast<u64>(m))
                {
                    s[a].it -= m;
                    s[a].cur -= static_cast<u64>(m);
                    back = true;
                }
                break;
            case 6: s.push_back({s[a].it + m, s[a].start, s[a].cur + static_cast<u64>(m)}); break;
            case 7:
                if (s[a].cur >= static_cast<u64>(m))
                {
                    s.push_back({s[a].it - m, s[a].start, s[a].cur - static_cast<u64>(m)});
                }
                break;
            case 8:
                // negative distances
                if (s[a].cur >= static_cast<u64>(m))
                {
                    s[a].it += -m;
                    s[a].cur -= static_cast<u64>(m);
                    back = true;
                }
                break;
            case 9:
                s[a].it -= -m;
                s[a].cur += static_cast<u64>(m);
                forth = true;
                break;
            case 10:
            {
                const u64 v = s[a].cur ^ c.below(16);
                s[a].it     = v;
                s[a].cur    = v;
                break;
            }
            default:
            {
                s.push_back(slot{s[a]});
                break;
            }
        }
        for (const auto& x : s)
        {
            REQUIRE_EQ(*x.it, ref_gray(x.cur), "the code at number " << x.cur);
            const auto i = c.below(100);
            REQUIRE_EQ(x.it[i], ref_gray(x.start + i), "index " << i << " counts from the start " << x.start);
        }
    }
    c.nontrivial(back && forth);
    c.note("from ", origin, ", ", ops, " operations, ", s.size(), " iterators");
    for (const auto& x : s)
    {
        for (const auto& y : s)
        {
            REQUIRE_EQ(x.it == y.it, x.cur == y.cur, x.cur << " and " << y.cur);
            REQUIRE_EQ(x.it != y.it, x.cur != y.cur, x.cur << " and " << y.cur);
            REQUIRE_EQ(x.it < y.it, x.cur < y.cur, x.cur << " and " << y.cur);
            REQUIRE_EQ(x.it <= y.it, x.cur <= y.cur, x.cur << " and " << y.cur);
            const auto diff = static_cast<std::int64_t>(x.cur - y.cur);
            REQUIRE_EQ(x.it - y.it, diff, x.cur << " and " << y.cur);
        }
        for (const auto v : {x.cur, x.cur + 1, x.cur - 1, x.cur ^ (u64{1} << 32u), u64{0}, MAX})
        {
            REQUIRE_EQ(x.it == v, x.cur == v, x.cur << " against the number " << v);
            REQUIRE_EQ(x.it != v, x.cur != v, x.cur << " against the number " << v);
            REQUIRE_EQ(x.it < v, x.cur < v, x.cur << " against the number " << v);
            REQUIRE_EQ(x.it <= v, x.cur <= v, x.cur << " against the number " << v);
            REQUIRE_EQ(x.it > v, x.cur > v, x.cur << " against the number " << v);
            REQUIRE_EQ(x.it >= v, x.cur >= v, x.cur << " against the number " << v);
        }
    }
}

/// the iterator as the bound of a loop, as the exhaustive simulators use it
PBT("gray.loop", 40000, 300000, "at least two iterations")
{
    const u64  from  = gen(c) >> 1u;
    const u64  width = c.below(200);
    u64        want  = from;
    for (gray_code_iterator it{from}; it < from + width; ++it, ++want)
    {
        REQUIRE_EQ(*it, ref_gray(want), "iteration " << want - from);
        if (want > from + width)
        {
            c.fail("the loop does not end");
        }
    }
    REQUIRE_EQ(want, from + width, "all numbers are visited");
    c.nontrivial(width >= 2);
    c.note(from, " + ", width);
}

PBT("gray.distance", 150000, 1500000, "positions at least 2^31 apart")
{
    // distances, for positions in the range of the difference type
    const u64 a = gen(c) >> 1u;
    const u64 b = c.flip() ? gen(c) >> 1u : (a ^ (1ull << c.below(63)));
    c.note(a, " - ", b);
    const auto want = static_cast<std::int64_t>(a) - static_cast<std::int64_t>(b);
    c.nontrivial(want >= (1ll << 31) || want <= -(1ll << 31));
    gray_code_iterator x{c.flip() ? a : 0};
    x = a;
    const gray_code_iterator y{b};
    REQUIRE_EQ(static_cast<std::int64_t>(x - y), want, "the difference of positions " << a << " and " << b);
    REQUIRE_EQ(static_cast<std::int64_t>(y - x), -want, "the difference of positions " << b << " and " << a);
    REQUIRE_EQ(x < y, a < b, a << " and " << b);
    REQUIRE_EQ(x <= y, a <= b, a << " and " << b);
    REQUIRE_EQ(x == y, a == b, a << " and " << b);
    REQUIRE_EQ(y < b + 1 && y > b - 1 && y >= b && y <= b, b != 0, "comparison with neighbouring numbers of " << b);
}
