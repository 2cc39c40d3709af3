#pragma once
#include "pbt.hpp"

#include <fiction/layouts/coordinates.hpp>

#include <cstdint>
#include <string>
#include <tuple>
#include <type_traits>

using uco = fiction::offset::ucoord_t;
using cco = fiction::cube::coord_t;
using sco = fiction::siqad::coord_t;

inline constexpr std::int64_t U31 = (1ll << 31) - 1;
inline constexpr std::int64_t I32MIN = -(1ll << 31);

template <typename C>
struct dims
{
    std::int64_t lo, hi, zlo, zhi;
};
template <typename C>
constexpr dims<C> range_of()
{
    if constexpr (std::is_same_v<C, uco>)
    {
        return {0, U31, 0, 1};
    }
    else if constexpr (std::is_same_v<C, cco>)
    {
        return {I32MIN, U31, I32MIN, U31};
    }
    else
    {
        return {I32MIN, U31, 0, 1};
    }
}

template <typename C>
C make(std::int64_t x, std::int64_t y, std::int64_t z, bool dead = false)
{
    C r{x, y, z};
    return dead ? r.get_dead() : r;
}

struct plain
{
    std::int64_t x, y, z;
    bool         d;
    bool         operator==(const plain&) const = default;
};
template <typename C>
plain gen_plain(pbt::ctx& c, std::int64_t cap = -1)
{
    auto r = range_of<C>();
    auto lo = r.lo, hi = r.hi, zlo = r.zlo, zhi = r.zhi;
    if (cap >= 0)
    {
        lo  = std::max(lo, -cap);
        hi  = std::min(hi, cap);
        zlo = std::max(zlo, -cap);
        zhi = std::min(zhi, cap);
    }
    plain p{};
    p.x = c.edgy<std::int64_t>(lo, hi);
    p.y = c.edgy<std::int64_t>(lo, hi);
    p.z = c.edgy<std::int64_t>(zlo, zhi);
    p.d = c.chance(1, 6);
    return p;
}
template <typename C>
C to_c(const plain& p)
{
    return make<C>(p.x, p.y, p.z, p.d);
}
template <typename C>
plain of_c(const C& v)
{
    return {static_cast<std::int64_t>(v.x), static_cast<std::int64_t>(v.y), static_cast<std::int64_t>(v.z), v.is_dead()};
}
inline std::string sp(const plain& p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + "," + std::to_string(p.z) + ")" + (p.d ? "dead" : "");
}
/// documented order: z before y before x; SiQAD: y before z before x
template <typename C>
auto rank(const plain& p)
{
    if constexpr (std::is_same_v<C, sco>)
    {
        return std::make_tuple(p.y, p.z, p.x);
    }
    else
    {
        return std::make_tuple(p.z, p.y, p.x);
    }
}
/// a second coordinate that often agrees with the first in some components
template <typename C>
plain gen_near(pbt::ctx& c, const plain& a)
{
    plain b = gen_plain<C>(c);
    if (c.flip())
    {
        b.x = a.x;
    }
    if (c.flip())
    {
        b.y = a.y;
    }
    if (c.flip())
    {
        b.z = a.z;
    }
    if (c.flip())
    {
        b.d = a.d;
    }
    return b;
}
