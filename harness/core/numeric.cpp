// numeric utilities: rounding, absolute values, weighted sums
#include "pbt.hpp"

#include <fiction/utils/math_utils.hpp>

#include <cmath>
#include <cstdint>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

using namespace fiction;

/// decimal literals: the number closest to a decimal with n places is already rounded to n places
PBT("round.idempotent", 300000, 3000000, "a non-zero number with at least one decimal place")
{
    const auto   n      = c.below(12);
    const auto   p10    = static_cast<std::int64_t>(std::pow(10.0, static_cast<double>(n)) + 0.5);
    const auto   k      = c.edgy<std::int64_t>(-(1ll << 45), 1ll << 45);
    const double x      = static_cast<double>(k) / static_cast<double>(p10);
    c.note(k, " * 10^-", n);
    c.nontrivial(k != 0 && n > 0);
    REQUIRE_EQ(round_to_n_decimal_places(x, n), x, "the nearest double to " << k << "e-" << n);
}
/// numbers strictly between the rounding thresholds go to the nearest multiple
PBT("round.nearest", 400000, 4000000, "a number that is not a multiple already")
{
    const auto   n   = c.below(10);
    const auto   p10 = static_cast<std::int64_t>(std::pow(10.0, static_cast<double>(n)) + 0.5);
    const auto   k   = c.edgy<std::int64_t>(-(1ll << 40), 1ll << 40);
    // offset in [-0.499, 0.499] units of the last place
    const double f = static_cast<double>(c.in<std::int64_t>(-499, 499)) / 1000.0;
    const double x = (static_cast<double>(k) + f) / static_cast<double>(p10);
    c.note(x, " to ", n, " places");
    c.nontrivial(f != 0.0);
    const double want = static_cast<double>(k) / static_cast<double>(p10);
    REQUIRE_EQ(round_to_n_decimal_places(x, n), want, x << " rounded to " << n << " places");
    // odd symmetry
    REQUIRE_EQ(round_to_n_decimal_places(-x, n), -want, -x << " rounded to " << n << " places");
    if (std::abs(want) < 1e5 && n <= 4)
    {
        const auto fx = static_cast<float>(x);
        const auto k2 = std::round(static_cast<double>(fx) * static_cast<double>(p10));
        REQUIRE_EQ(round_to_n_decimal_places(fx, n), static_cast<float>(k2 / static_cast<double>(p10)), fx << " as float");
    }
}
/// exact halves (binary fractions at zero places) go away from zero
PBT("round.half", 50000, 500000, "a half")
{
    const auto   k = c.edgy<std::int64_t>(-(1ll << 40), 1ll << 40);
    const double x = static_cast<double>(k) + 0.5;
    const double w = x > 0 ? static_cast<double>(k + 1) : static_cast<double>(k);
    c.note(x);
    c.nontrivial();
    REQUIRE_EQ(round_to_n_decimal_places(x, 0), w, x << " rounded to the nearest integer");
}
template <typename T>
void round_int(pbt::ctx& c)
{
    using lim     = std::numeric_limits<T>;
    const auto n  = c.below(4);
    const T    lo = sizeof(T) < 8 ? lim::min() : static_cast<T>(std::is_signed_v<T> ? -(1ll << 40) : 0);
    const T    hi = sizeof(T) < 8 ? lim::max() : static_cast<T>(1ll << 40);
    const T    x  = c.edgy<T>(lo, hi);
    c.note(pbt::show(x), " to ", n, " places");
    c.nontrivial(x != 0);
    REQUIRE_EQ(round_to_n_decimal_places(x, n), x, "an integer is rounded already");
}
PBT("round.integers", 100000, 1000000, "a non-zero integer")
{
    switch (c.below(5))
    {
        case 0: round_int<std::int32_t>(c); break;
        case 1: round_int<std::uint32_t>(c); break;
        case 2: round_int<std::int64_t>(c); break;
        case 3: round_int<std::uint64_t>(c); break;
        default: round_int<std::int8_t>(c); break;
    }
}

template <typename T>
void abs_check(pbt::ctx& c)
{
    using lim = std::numeric_limits<T>;
    const T x = c.edgy<T>(lim::min(), lim::max());
    c.note(pbt::show(x));
    c.nontrivial(x < 0 || x == lim::max() || x > 1000);
    const auto     a    = integral_abs(x);
    const __int128 want = static_cast<__int128>(x) < 0 ? -static_cast<__int128>(x) : static_cast<__int128>(x);
    REQUIRE_EQ(static_cast<__int128>(a), want, "|" << pbt::show(x) << "|");
}
PBT("abs.signed", 300000, 3000000, "a negative or a large value")
{
    switch (c.below(4))
    {
        case 0: abs_check<std::int8_t>(c); break;
        case 1: abs_check<std::int16_t>(c); break;
        case 2: abs_check<std::int32_t>(c); break;
        default: abs_check<std::int64_t>(c); break;
    }
}
PBT("abs.unsigned", 200000, 2000000, "a negative or a large value")
{
    switch (c.below(4))
    {
        case 0: abs_check<std::uint8_t>(c); break;
        case 1: abs_check<std::uint16_t>(c); break;
        case 2: abs_check<std::uint32_t>(c); break;
        default: abs_check<std::uint64_t>(c); break;
    }
}
PBT("abs.exhaustive16", 65536, 65536, "a negative or a large value")
{
    const auto x = static_cast<std::int16_t>(static_cast<std::int32_t>(c.systematic(65536)) - 32768);
    c.nontrivial(x < 0 || x > 1000);
    c.note(x);
    REQUIRE_EQ(static_cast<std::int64_t>(integral_abs(x)), std::abs(static_cast<std::int64_t>(x)), x);
}

PBT("chi.exact", 150000, 1500000, "at least two terms with different weights")
{
    // dyadic values: every sum is exact, in any order
    const auto          n = c.below(9);
    std::vector<double> x{}, w{};
    std::int64_t        want = 0;
    bool                differ = false;
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto a = c.in<std::int64_t>(-4096, 4096), b = c.in<std::int64_t>(-4096, 4096);
        x.push_back(static_cast<double>(a) / 64.0);
        w.push_back(static_cast<double>(b) / 64.0);
        want += a * b;
        differ |= i > 0 && w[i] != w[0];
    }
    c.note(pbt::show(x), " . ", pbt::show(w));
    c.nontrivial(n >= 2 && differ);
    REQUIRE_EQ(cost_function_chi(x, w), static_cast<double>(want) / 4096.0, "the weighted sum");
}
PBT("chi.sizes", 60000, 600000, "different sizes")
{
    std::vector<double> x(c.below(6), 1.0), w(c.below(6), 2.0);
    c.note(x.size(), " values and ", w.size(), " weights");
    c.nontrivial(x.size() != w.size());
    bool thrown = false;
    try
    {
        const auto r = cost_function_chi(x, w);
        REQUIRE_EQ(r, 2.0 * static_cast<double>(x.size()), "sum");
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    REQUIRE_EQ(thrown, x.size() != w.size(), "different sizes are refused with invalid_argument, equal ones are not");
}
