// combinations, permutations, binomial coefficients, Cartesian products
#include "pbt.hpp"

#include <fiction/utils/combination_utils.hpp>
#include <fiction/utils/math_utils.hpp>

#include <combinations.h>

#include <algorithm>
#include <cstdint>
#include <list>
#include <numeric>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace fiction;
using u64  = std::uint64_t;
using u128 = unsigned __int128;

// ---- binomial coefficient -------------------------------------------------------------------------------------

/// Pascal's triangle, saturating at 2^100
static constexpr u128 SAT = static_cast<u128>(1) << 100u;
static u128           pascal(u64 n, u64 k)
{
    static std::vector<std::vector<u128>> t = []
    {
        std::vector<std::vector<u128>> r(260);
        for (std::size_t i = 0; i < r.size(); ++i)
        {
            r[i].assign(i + 1, 1);
            for (std::size_t j = 1; j < i; ++j)
            {
                r[i][j] = std::min(SAT, r[i - 1][j - 1] + r[i - 1][j]);
            }
        }
        return r;
    }();
    return k > n ? 0 : t[n][k];
}

PBT("binomial.triangle", 200000, 1000000, "a coefficient greater than n that fits 64 bits")
{
    const u64 n = c.below(c.flip() ? 70 : 259);
    const u64 k = c.flip() ? c.below(n + 3) : c.below(12);
    c.note(n, " over ", k);
    const u128 want = pascal(n, k);
    if (want > std::numeric_limits<u64>::max())
    {
        c.label("not representable");
        return;
    }
    c.nontrivial(want > n);
    REQUIRE_EQ(binomial_coefficient(n, k), static_cast<u64>(want), n << " over " << k);
}
PBT("binomial.huge", 60000, 600000, "a coefficient greater than n that fits 64 bits")
{
    // few entities on very many positions (or all but few)
    const u64  n    = c.edgy<u64>(0, ~0ull);
    u64        k    = c.below(6);
    const bool comp = c.flip() && n >= k;
    u128       want = 1;
    bool       fits = true;
    for (u64 i = 1; i <= k && fits; ++i)
    {
        if (n < k)
        {
            want = 0;
            break;
        }
        if (want > SAT / 1 || (n + 1 - i) > (~static_cast<u128>(0)) / want)
        {
            fits = false;
            break;
        }
        want = want * (n + 1 - i) / i;
        fits = want <= ~0ull;
    }
    if (comp)
    {
        k = n - k;
    }
    c.note(n, " over ", k);
    if (!fits)
    {
        c.label("not representable");
        return;
    }
    c.nontrivial(want > n);
    REQUIRE_EQ(binomial_coefficient(n, k), static_cast<u64>(want), n << " over " << k);
}

// ---- k entities on n positions --------------------------------------------------------------------------------

PBT("distribute", 12000, 120000, "1 < k < n")
{
    const u64 n = c.below(c.thorough ? 16 : 13);
    const u64 k = c.below(n + 2);
    c.note(k, " on ", n);
    c.nontrivial(k > 1 && k < n);
    c.key(n * 100 + k);
    const auto got = determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n);
    if (k == 0 || k > n)
    {
        REQUIRE_THAT(got.empty(), "there is nothing to distribute");
        return;
    }
    REQUIRE_EQ(got.size(), static_cast<u64>(pascal(n, k)), "the number of combinations of " << k << " on " << n);
    // the reference: subsets by bit mask
    std::set<std::vector<std::size_t>> want{};
    for (u64 m = 0; m < (1ull << n); ++m)
    {
        std::vector<std::size_t> s{};
        for (u64 b = 0; b < n; ++b)
        {
            if ((m >> b) & 1u)
            {
                s.push_back(b);
            }
        }
        if (s.size() == k)
        {
            want.insert(s);
        }
    }
    for (const auto& g : got)
    {
        REQUIRE_THAT(std::is_sorted(g.begin(), g.end()), "positions are ascending: " << pbt::show(g));
        REQUIRE_THAT(want.erase(g) == 1, "a repeated or foreign combination " << pbt::show(g));
    }
    REQUIRE_THAT(want.empty(), "missing " << pbt::show(*want.begin()));
}

// ---- the vendored combination / permutation library ----------------------------------------------------------

enum kind
{
    COMB,
    PERM,
    CIRC,
    REV,
    REVCIRC
};
static const char* NAMES[] = {"combination", "permutation", "circular", "reversible", "reversible circular"};

/// canonical representative of the class of arrangements an algorithm enumerates once
static std::vector<int> canonical(kind k, std::vector<int> v)
{
    auto rotated = [](std::vector<int> w)
    {
        std::rotate(w.begin(), std::min_element(w.begin(), w.end()), w.end());
        return w;
    };
    switch (k)
    {
        case COMB: std::sort(v.begin(), v.end()); return v;
        case PERM: return v;
        case CIRC: return v.empty() ? v : rotated(v);
        case REV: return std::min(v, std::vector<int>(v.rbegin(), v.rend()));
        default:
        {
            if (v.empty())
            {
                return v;
            }
            return std::min(rotated(v), rotated(std::vector<int>(v.rbegin(), v.rend())));
        }
    }
}

template <typename It, typename F>
void run(kind k, It f, It m, It l, F&& fn)
{
    switch (k)
    {
        case COMB: combinations::for_each_combination(f, m, l, fn); break;
        case PERM: combinations::for_each_permutation(f, m, l, fn); break;
        case CIRC: combinations::for_each_circular_permutation(f, m, l, fn); break;
        case REV: combinations::for_each_reversible_permutation(f, m, l, fn); break;
        default: combinations::for_each_reversible_circular_permutation(f, m, l, fn); break;
    }
}
template <typename It>
std::uintmax_t count(kind k, It f, It m, It l)
{
    switch (k)
    {
        case COMB: return combinations::count_each_combination(f, m, l);
        case PERM: return combinations::count_each_permutation(f, m, l);
        case CIRC: return combinations::count_each_circular_permutation(f, m, l);
        case REV: return combinations::count_each_reversible_permutation(f, m, l);
        default: return combinations::count_each_reversible_circular_permutation(f, m, l);
    }
}
template <typename U>
U count_u(kind k, U a, U b)
{
    switch (k)
    {
        case COMB: return combinations::count_each_combination<U>(a, b);
        case PERM: return combinations::count_each_permutation<U>(a, b);
        case CIRC: return combinations::count_each_circular_permutation<U>(a, b);
        case REV: return combinations::count_each_reversible_permutation<U>(a, b);
        default: return combinations::count_each_reversible_circular_permutation<U>(a, b);
    }
}

template <typename Container>
void enumerate(pbt::ctx& c)
{
    const auto k = static_cast<kind>(c.below(5));
    const auto n = static_cast<std::size_t>(c.below(k == COMB ? 10 : (c.thorough ? 8 : 7)));
    const auto r = static_cast<std::size_t>(c.below(n + 1));
    std::vector<int> elems(n);
    std::iota(elems.begin(), elems.end(), 10);
    c.shuffle(elems);
    c.note(NAMES[k], "s of ", r, " out of ", pbt::show(elems));
    c.label(NAMES[k]);
    c.nontrivial(r >= 2 && n > r);
    // the reference: next_permutation over everything, projected
    std::set<std::vector<int>> want{};
    {
        auto s = elems;
        std::sort(s.begin(), s.end());
        if (k == COMB)
        {
            for (unsigned m = 0; m < (1u << n); ++m)
            {
                std::vector<int> v{};
                for (std::size_t b = 0; b < n; ++b)
                {
                    if ((m >> b) & 1u)
                    {
                        v.push_back(s[b]);
                    }
                }
                if (v.size() == r)
                {
                    want.insert(v);
                }
            }
        }
        else
        {
            do
            {
                want.insert(canonical(k, std::vector<int>(s.begin(), s.begin() + static_cast<std::ptrdiff_t>(r))));
            } while (std::next_permutation(s.begin(), s.end()));
        }
    }
    const auto total = want.size();
    Container  data(elems.begin(), elems.end());
    auto       mid  = std::next(data.begin(), static_cast<std::ptrdiff_t>(r));
    const auto sorted_all = [&] { auto s = elems; std::sort(s.begin(), s.end()); return s; }();
    u64        calls      = 0;
    const u64  stop_at    = c.chance(1, 3) ? 1 + c.below(total + 1) : 0;
    std::vector<int> at_stop{};
    // combinations present their elements in the order of the range
    std::vector<int> prev_pos{};
    run(k, data.begin(), mid, data.end(),
        [&](auto b, auto e) -> bool
        {
            ++calls;
            std::vector<int> v(b, e);
            if (v.size() != r)
            {
                throw pbt::failure{"a call with " + std::to_string(v.size()) + " elements"};
            }
            std::vector<int> all(data.begin(), data.end());
            const auto       snapshot = all;
            std::sort(all.begin(), all.end());
            if (all != sorted_all)
            {
                throw pbt::failure{"the range no longer holds the original values"};
            }
            if (k == COMB)
            {
                std::vector<int> pos{};
                for (int x : v)
                {
                    pos.push_back(static_cast<int>(std::find(elems.begin(), elems.end(), x) - elems.begin()));
                }
                if (!std::is_sorted(pos.begin(), pos.end()))
                {
                    throw pbt::failure{"a combination is not in the order of the range"};
                }
                if (calls > 1 && !(prev_pos < pos))
                {
                    throw pbt::failure{"combinations are not in lexicographic order of the positions"};
                }
                prev_pos = pos;
            }
            if (want.erase(canonical(k, v)) != 1)
            {
                throw pbt::failure{"the arrangement " + pbt::show(v) + " is repeated"};
            }
            if (calls == stop_at)
            {
                at_stop = snapshot;
                return true;
            }
            return false;
        });
    if (stop_at != 0 && stop_at <= total)
    {
        c.label("stopped early");
        REQUIRE_EQ(calls, stop_at, "the enumeration stops when told to");
        REQUIRE_THAT(std::vector<int>(data.begin(), data.end()) == at_stop, "the range is left as it was when told to stop");
        return;
    }
    REQUIRE_EQ(calls, total, "the number of calls");
    REQUIRE_THAT(want.empty(), "missing " << pbt::show(*want.begin()));
    REQUIRE_THAT(std::vector<int>(data.begin(), data.end()) == elems, "the original order is restored, not "
                                                                          << pbt::show(std::vector<int>(data.begin(), data.end())));
    REQUIRE_EQ(count(k, data.begin(), mid, data.end()), static_cast<std::uintmax_t>(total), "the predicted number of calls");
}
PBT("enumerate.vector", 30000, 200000, "at least two elements chosen from more") { enumerate<std::vector<int>>(c); }
PBT("enumerate.list", 15000, 100000, "at least two elements chosen from more") { enumerate<std::list<int>>(c); }

/// exact counts in saturated 128 bit arithmetic
static std::optional<u128> exact_count(kind k, u64 a, u64 b)
{
    // products of ranges with division at the end can exceed 128 bits: reduce through the factor list
    std::vector<u64> num{};
    std::vector<u64> den{};
    for (u64 i = b + 1; i <= a + b; ++i)
    {
        num.push_back(i);
    }
    switch (k)
    {
        case COMB:
            for (u64 i = 2; i <= a; ++i)
            {
                den.push_back(i);
            }
            break;
        case PERM: break;
        case CIRC:
            if (a == 0)
            {
                return 1;
            }
            den.push_back(a);
            break;
        case REV:
            if (a > 1)
            {
                den.push_back(2);
            }
            break;
        default:
            if (a == 0)
            {
                return 1;
            }
            den.push_back(a);
            if (a > 2)
            {
                den.push_back(2);
            }
            break;
    }
    for (auto d : den)
    {
        for (auto& x : num)
        {
            const auto g = std::gcd(x, d);
            x /= g;
            d /= g;
        }
        if (d != 1)
        {
            throw pbt::failure{"internal: the reference count is not integral"};
        }
    }
    u128 r = 1;
    for (auto x : num)
    {
        r *= x;
        if (r > SAT)
        {
            return std::nullopt;
        }
    }
    return r;
}

template <typename U>
void counts(pbt::ctx& c)
{
    const auto k   = static_cast<kind>(c.below(5));
    const u64  max = std::numeric_limits<U>::max();
    const u64  cap = std::min<u64>(max, 200);
    u64        a   = c.flip() ? c.below(9) : c.below(cap);
    u64        b   = c.flip() ? c.below(9) : c.below(cap);
    if (c.chance(1, 4))
    {
        a = c.below(3);
        b = std::min<u64>(max, c.edgy<u64>(0, max));
        if (b > 4000000000ull && a > 2)
        {
            b = 5;
        }
    }
    c.note(NAMES[k], " count ", a, ", ", b, " in ", sizeof(U) * 8, " bits");
    c.nontrivial(a >= 2 && b >= 1);
    std::optional<u128> want{};
    if (a <= 2 && b > 1000000)
    {
        // closed forms for few out of very many
        const u128 n = static_cast<u128>(a) + b;
        want         = a == 0 ? 1 : (a == 1 ? n : (n - 1 > SAT / n ? SAT : (k == PERM ? n * (n - 1) : n * (n - 1) / 2)));
    }
    else
    {
        want = exact_count(k, a, b);
    }
    const bool fits = want.has_value() && *want <= max;
    c.label(fits ? "representable" : "not representable");
    U    got{};
    bool thrown = false;
    try
    {
        got = count_u<U>(k, static_cast<U>(a), static_cast<U>(b));
    }
    catch (const std::overflow_error&)
    {
        thrown = true;
    }
    if (fits)
    {
        REQUIRE_THAT(!thrown, "the count " << pbt::show(*want) << " is representable");
        REQUIRE_EQ(static_cast<u128>(got), *want, NAMES[k] << " count of " << a << ", " << b);
    }
    else
    {
        REQUIRE_THAT(thrown, "the count is not representable, but " << static_cast<u64>(got) << " is returned");
    }
}
PBT("count.u64", 120000, 1000000, "at least two chosen from more") { counts<std::uint64_t>(c); }
PBT("count.u32", 60000, 500000, "at least two chosen from more") { counts<std::uint32_t>(c); }
PBT("count.u8", 60000, 500000, "at least two chosen from more") { counts<std::uint8_t>(c); }

// ---- Cartesian products ----------------------------------------------------------------------------------------

template <typename T>
void cartesian(pbt::ctx& c)
{
    std::vector<std::vector<T>> sets(c.below(5));
    std::size_t                 total = 1;
    int                         next  = 0;
    for (auto& s : sets)
    {
        const auto size = c.chance(1, 12) ? 0 : 1 + c.below(5);
        const bool dup  = c.chance(1, 6);
        for (std::size_t i = 0; i < size; ++i)
        {
            const int v = dup ? 7 : ++next;
            if constexpr (std::is_same_v<T, std::string>)
            {
                s.push_back("s" + std::to_string(v));
            }
            else
            {
                s.push_back(static_cast<T>(v));
            }
        }
        total *= size;
    }
    c.note(pbt::show(sets));
    c.nontrivial(sets.size() >= 2 && total >= 4);
    const auto got = cartesian_combinations(sets);
    REQUIRE_EQ(got.size(), total, "the size of the product");
    // the reference: an odometer whose last digit runs fastest
    std::vector<std::size_t> digit(sets.size(), 0);
    for (const auto& g : got)
    {
        REQUIRE_EQ(g.size(), sets.size(), "one element per dimension");
        for (std::size_t d = 0; d < sets.size(); ++d)
        {
            REQUIRE_THAT(g[d] == sets[d][digit[d]], "dimension " << d << " of " << pbt::show(g));
        }
        for (std::size_t d = sets.size(); d-- > 0;)
        {
            if (++digit[d] < sets[d].size())
            {
                break;
            }
            digit[d] = 0;
        }
    }
}
PBT("cartesian.int", 40000, 400000, "a product of at least two dimensions and four elements") { cartesian<int>(c); }
PBT("cartesian.string", 20000, 200000, "a product of at least two dimensions and four elements") { cartesian<std::string>(c); }
