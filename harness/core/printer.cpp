// the layout printers for debugging: every assignment is printed, in the documented form
#include "pbt.hpp"

#include <fiction/layouts/coordinates.hpp>
#include <fiction/utils/debug/layout_printer.hpp>

#include <fmt/format.h>

#include <cstdint>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace fiction;
using coord = offset::ucoord_t;

/// a stand-in for a gate-level layout: nodes on tiles, fan-ins and fan-outs; signals are tile indices with an offset
struct lyt
{
    struct nd
    {
        std::uint64_t              id{};
        coord                      t{};
        std::vector<std::uint64_t> in{}, out{};
    };
    std::vector<nd>    nodes{};
    std::vector<coord> tiles{};

    [[nodiscard]] const nd& at(std::uint64_t n) const
    {
        for (const auto& x : nodes)
        {
            if (x.id == n)
            {
                return x;
            }
        }
        throw std::out_of_range("no such node");
    }
    template <typename F>
    void foreach_node(F f) const
    {
        for (const auto& x : nodes)
        {
            f(x.id);
        }
    }
    template <typename F>
    void foreach_tile(F f) const
    {
        for (const auto& t : tiles)
        {
            f(t);
        }
    }
    [[nodiscard]] coord get_tile(std::uint64_t n) const
    {
        return at(n).t;
    }
    struct sig
    {
        std::uint64_t n;
    };
    [[nodiscard]] std::uint64_t get_node(const sig& s) const
    {
        return s.n;
    }
    [[nodiscard]] std::uint64_t get_node(const coord& t) const
    {
        for (const auto& x : nodes)
        {
            if (x.t == t)
            {
                return x.id;
            }
        }
        return 0;
    }
    template <typename F>
    void foreach_fanin(std::uint64_t n, F f) const
    {
        for (const auto x : at(n).in)
        {
            f(sig{x});
        }
    }
    template <typename F>
    void foreach_fanout(std::uint64_t n, F f) const
    {
        for (const auto x : at(n).out)
        {
            f(x);
        }
    }
};
static std::string pos(const coord& t)
{
    return "(" + std::to_string(static_cast<int>(t.x)) + "," + std::to_string(static_cast<int>(t.y)) + "," + std::to_string(static_cast<int>(t.z)) + ")";
}
static std::string block(const lyt& l, const lyt::nd& x, bool blank_at_end)
{
    auto line = [&](std::uint64_t n) { return std::to_string(n) + " @ " + pos(l.at(n).t) + "\n"; };
    std::string s = "node " + line(x.id) + "\t with fanins:\n";
    for (const auto y : x.in)
    {
        s += "\t   " + line(y);
    }
    s += "\n\t with fanouts:\n";
    for (const auto y : x.out)
    {
        s += "\t   " + line(y);
    }
    return s + (blank_at_end ? "\n" : "");
}
static lyt gen(pbt::ctx& c)
{
    lyt             l{};
    std::set<coord> used{};
    for (int y = 0; y < 3; ++y)
    {
        for (int x = 0; x < 3; ++x)
        {
            l.tiles.emplace_back(x, y);
        }
    }
    for (auto n = c.below(7); n > 0; --n)
    {
        const coord t = c.pick(l.tiles);
        if (used.insert(t).second)
        {
            l.nodes.push_back({1 + l.nodes.size() + c.below(3) * 100, t});
        }
    }
    for (auto& x : l.nodes)
    {
        for (auto n = c.below(4); n > 0; --n)
        {
            x.in.push_back(c.pick(l.nodes).id);
        }
        for (auto n = c.below(4); n > 0; --n)
        {
            x.out.push_back(c.pick(l.nodes).id);
        }
    }
    return l;
}
template <typename F>
std::string captured(F f)
{
    std::ostringstream os{};
    auto*              old = std::cout.rdbuf(os.rdbuf());
    try
    {
        f();
    }
    catch (...)
    {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);
    return os.str();
}

PBT("node_to_tile", 40000, 400000, "at least three nodes, one with both fan-ins and fan-outs")
{
    const auto  l    = gen(c);
    std::string want = "\n---- NODE TO TILE ----\n";
    bool        both = false;
    for (const auto& x : l.nodes)
    {
        want += block(l, x, false);
        both |= !x.in.empty() && !x.out.empty();
    }
    want += "\n----------------------\n";
    c.note(l.nodes.size(), " nodes");
    c.nontrivial(both && l.nodes.size() >= 3);
    REQUIRE_EQ(captured([&] { debug::print_node_to_tile_assignments(l); }), want, "the printed assignment");
}
PBT("tile_to_node", 40000, 400000, "at least three nodes, one with both fan-ins and fan-outs")
{
    const auto  l    = gen(c);
    std::string want = "\n---- TILE TO NODE ----\n";
    bool        both = false;
    for (const auto& t : l.tiles)
    {
        want += "tile " + pos(t) + "\n";
        if (const auto n = l.get_node(t); n != 0)
        {
            want += block(l, l.at(n), true);
            both |= !l.at(n).in.empty() && !l.at(n).out.empty();
        }
    }
    want += "\n----------------------\n";
    c.note(l.nodes.size(), " nodes");
    c.nontrivial(both && l.nodes.size() >= 3);
    REQUIRE_EQ(captured([&] { debug::print_tile_to_node_assignments(l); }), want, "the printed assignment");
}
