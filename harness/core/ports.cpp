// ports of gate tiles: ordering, sets, merging, hashing, formatting
#include "pbt.hpp"

#include <fiction/technology/cell_ports.hpp>

#include <fmt/format.h>
#include <fmt/ranges.h>

#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_set>
#include <vector>

using namespace fiction;
using card = port_direction::cardinal;

using XY = std::pair<unsigned, unsigned>;

static std::uint16_t gen16(pbt::ctx& c)
{
    return c.below(3) == 0 ? c.edgy<std::uint16_t>(0, 65535) : static_cast<std::uint16_t>(c.below(4));
}
static port_position gen_pos(pbt::ctx& c)
{
    const auto x = gen16(c);
    const auto y = gen16(c);
    const bool i = c.flip();
    const bool o = c.flip();
    port_position p{x, y, i, o};
    REQUIRE_THAT(p.x == x && p.y == y && p.pi == i && p.po == o, "a port keeps its position and its flags");
    return p;
}
static port_direction gen_dir(pbt::ctx& c)
{
    const auto d = static_cast<card>(c.below(9));
    const bool i = c.flip();
    const bool o = c.flip();
    port_direction p{d, i, o};
    REQUIRE_THAT(p.dir == static_cast<std::uint8_t>(d) && p.pi == i && p.po == o, "a port keeps its direction and its flags");
    return p;
}
static XY key(const port_position& p)
{
    return {p.x, p.y};
}
static unsigned key(const port_direction& p)
{
    return p.dir;
}

template <typename P, typename G>
void order(pbt::ctx& c, G gen)
{
    const P a = gen(c);
    P       b = c.chance(1, 4) ? a : gen(c);
    if (c.flip())
    {
        b.pi = !b.pi;
        b.po = c.flip();
    }
    const auto ka = key(a), kb = key(b);
    c.note(fmt::format("{} {}", a, b));
    c.nontrivial(ka == kb ? (a.pi != b.pi || a.po != b.po) : true);
    REQUIRE_EQ(a == b, ka == kb, "ports are equal when their locations are");
    REQUIRE_EQ(a < b, ka < kb, "ports are ordered by their locations");
    REQUIRE_EQ(b < a, kb < ka, "ports are ordered by their locations, the other way round");
    if (ka == kb)
    {
        REQUIRE_EQ(std::hash<P>{}(a), std::hash<P>{}(b), "equal ports have equal hashes");
    }
}
PBT("order.position", 200000, 2000000, "different locations, or the same location with different flags")
{
    order<port_position>(c, gen_pos);
}
PBT("order.direction", 100000, 1000000, "different directions, or the same direction with different flags")
{
    order<port_direction>(c, gen_dir);
}

template <typename P, typename G>
void lists(pbt::ctx& c, G gen)
{
    using K = decltype(key(std::declval<P>()));
    auto make = [&](std::set<K>& ki, std::set<K>& ko)
    {
        std::set<P> i{}, o{};
        for (auto n = c.below(6); n > 0; --n)
        {
            const auto p = gen(c);
            i.insert(p);
            ki.insert(key(p));
        }
        for (auto n = c.below(6); n > 0; --n)
        {
            const auto p = gen(c);
            o.insert(p);
            ko.insert(key(p));
        }
        port_list<P> l{i, o};
        REQUIRE_THAT(l.inp.size() == ki.size() && l.out.size() == ko.size(), "a list keeps every distinct port exactly once");
        REQUIRE_THAT(l.inp == i && l.out == o, "inputs stay inputs and outputs stay outputs");
        return l;
    };
    std::set<K> ai{}, ao{}, bi{}, bo{};
    auto        a = make(ai, ao);
    auto        b = make(bi, bo);
    c.note(fmt::format("[{}] += [{}]", a, b));
    const bool same = ai == bi && ao == bo;
    REQUIRE_EQ(a == b, same, "port lists are equal exactly when inputs and outputs are");
    REQUIRE_EQ(b == a, same, "equality is symmetric");
    if (same)
    {
        REQUIRE_EQ(std::hash<port_list<P>>{}(a), std::hash<port_list<P>>{}(b), "equal port lists have equal hashes");
    }
    auto copy = a;
    REQUIRE_THAT(copy == a, "a copy is equal");
    REQUIRE_EQ(std::hash<port_list<P>>{}(a), std::hash<port_list<P>>{}(copy), "a copy has the same hash");

    auto  ui = ai, uo = ao;
    ui.insert(bi.begin(), bi.end());
    uo.insert(bo.begin(), bo.end());
    c.nontrivial(ui.size() < ai.size() + bi.size() || (ui.size() > ai.size() && uo.size() > ao.size()));
    const auto keep = a;
    auto& r = (a += b);
    REQUIRE_THAT(&r == &a, "+= yields its left operand");
    auto keys = [](const std::set<P>& s)
    {
        std::set<K> k{};
        for (const auto& p : s)
        {
            k.insert(key(p));
        }
        return k;
    };
    REQUIRE_THAT(keys(a.inp) == ui && a.inp.size() == ui.size(), "the merged inputs are the union");
    REQUIRE_THAT(keys(a.out) == uo && a.out.size() == uo.size(), "the merged outputs are the union");
    // ports the list had before keep their flags
    for (const auto& p : keep.inp)
    {
        const auto it = a.inp.find(p);
        REQUIRE_THAT(it != a.inp.end() && it->pi == p.pi && it->po == p.po, "a port that was there before is unchanged");
    }
    for (const auto& p : keep.out)
    {
        const auto it = a.out.find(p);
        REQUIRE_THAT(it != a.out.end() && it->pi == p.pi && it->po == p.po, "a port that was there before is unchanged");
    }
}
PBT("list.position", 100000, 1000000, "the lists overlap, or the merge adds both inputs and outputs")
{
    lists<port_position>(c, gen_pos);
}
PBT("list.direction", 100000, 1000000, "the lists overlap, or the merge adds both inputs and outputs")
{
    lists<port_direction>(c, gen_dir);
}

PBT("construction", 30000, 300000, "always")
{
    // flags are optional, and off
    c.nontrivial();
    const auto x = gen16(c), y = gen16(c);
    const auto d = static_cast<card>(c.below(9));
    const bool f = c.flip();
    const port_position  p0{}, p1{x, y}, p2{x, y, f};
    const port_direction d0{}, d1{d}, d2{d, f};
    REQUIRE_THAT(p0.x == 0 && p0.y == 0 && !p0.pi && !p0.po, "the default position");
    REQUIRE_THAT(p1.x == x && p1.y == y && !p1.pi && !p1.po, "a position is no input or output of the design unless it says so");
    REQUIRE_THAT(p2.pi == f && !p2.po, "only the input flag was given");
    REQUIRE_THAT(!d0.pi && !d0.po, "the default direction");
    REQUIRE_THAT(d1.dir == static_cast<std::uint8_t>(d) && !d1.pi && !d1.po, "a direction is no input or output of the design unless it says so");
    REQUIRE_THAT(d2.pi == f && !d2.po, "only the input flag was given");
    const port_list<port_position>  l0{};
    const port_list<port_direction> l1{};
    REQUIRE_THAT(l0.inp.empty() && l0.out.empty() && l1.inp.empty() && l1.out.empty(), "a new list is empty");
}
PBT("format.direction", 256, 256, "a cardinal direction")
{
    static const std::vector<std::string> names{"N", "NE", "E", "SE", "S", "SW", "W", "NW"};
    const auto                            v = c.systematic(256);
    port_direction                        p{};
    p.dir = static_cast<std::uint8_t>(v);
    p.pi = c.flip();
    p.po = c.flip();
    c.note(v);
    c.nontrivial(v < 8);
    REQUIRE_EQ(fmt::format("{}", p), v < 8 ? names[v] : std::string{"?"}, "the name of direction " << v);
}
PBT("format.list", 50000, 500000, "at least two inputs and an output")
{
    std::vector<port_position> pi{}, po{};
    for (auto n = c.below(5); n > 0; --n)
    {
        pi.push_back(gen_pos(c));
    }
    for (auto n = c.below(5); n > 0; --n)
    {
        po.push_back(gen_pos(c));
    }
    port_list<port_position> l{{pi.begin(), pi.end()}, {po.begin(), po.end()}};
    auto                     txt = [](const std::vector<port_position>& v)
    {
        std::set<XY> s{};
        for (const auto& p : v)
        {
            s.insert({p.x, p.y});
        }
        std::string t{};
        for (const auto& [x, y] : s)
        {
            t += (t.empty() ? "" : ", ") + std::string{"("} + std::to_string(x) + "," + std::to_string(y) + ")";
        }
        return t;
    };
    const auto want = "inp: " + txt(pi) + ", out: " + txt(po);
    c.note(want);
    c.nontrivial(l.inp.size() >= 2 && !l.out.empty());
    REQUIRE_EQ(fmt::format("{}", l), want, "the text of a port list");
    if (!pi.empty())
    {
        REQUIRE_EQ(fmt::format("{}", pi[0]), "(" + std::to_string(pi[0].x) + "," + std::to_string(pi[0].y) + ")", "the text of a port");
        const port_direction d{card::SOUTH_EAST};
        const auto           two = fmt::format("from {} to {}: {}.", pi[0], d, l);
        REQUIRE_EQ(two, "from " + fmt::format("{}", pi[0]) + " to " + fmt::format("{}", d) + ": " + want + ".", "ports within a text");
    }
}
PBT("hash.spread", 60, 600, "always")
{
    // the ports of a tile must not collapse into few hash values
    const auto                      x0 = static_cast<std::uint16_t>(c.below(60000));
    const auto                      y0 = static_cast<std::uint16_t>(c.below(60000));
    std::unordered_set<std::size_t> h{};
    for (std::uint16_t x = 0; x < 20; ++x)
    {
        for (std::uint16_t y = 0; y < 20; ++y)
        {
            h.insert(std::hash<port_position>{}(port_position{static_cast<std::uint16_t>(x0 + x), static_cast<std::uint16_t>(y0 + y)}));
        }
    }
    c.note(x0, ",", y0, ": ", h.size(), " of 400 hash values");
    c.nontrivial();
    REQUIRE_THAT(h.size() >= 200, "400 positions give only " << h.size() << " hash values");
    std::unordered_set<std::size_t> hd{}, hl{};
    for (int d = 0; d < 9; ++d)
    {
        hd.insert(std::hash<port_direction>{}(port_direction{static_cast<card>(d)}));
        for (int e = 0; e < 9; ++e)
        {
            hl.insert(std::hash<port_list<port_direction>>{}({{port_direction{static_cast<card>(d)}}, {port_direction{static_cast<card>(e)}}}));
        }
    }
    REQUIRE_THAT(hd.size() >= 7, "the directions collide");
    REQUIRE_THAT(hl.size() >= 60, "port lists that differ in which ports are inputs and outputs collide: " << hl.size());
}
