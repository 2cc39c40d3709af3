// generated gate-level layouts and an explicit model of the routing graph, shared by the layout harnesses
#ifndef VERIF_LYT_COMMON_HPP
#define VERIF_LYT_COMMON_HPP
#include "pbt.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

#include <algorithm>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace lyt
{
using namespace fiction;
using P3 = std::tuple<long, long, long>;
template <typename T>
P3 p3(const T& t) { return {static_cast<long>(t.x), static_cast<long>(t.y), static_cast<long>(t.z)}; }
inline std::string s3(const P3& p)
{
    return "(" + std::to_string(std::get<0>(p)) + "," + std::to_string(std::get<1>(p)) + "," + std::to_string(std::get<2>(p)) + ")";
}
template <typename Lyt>
coordinate<Lyt> tl(const P3& p) { return coordinate<Lyt>(std::get<0>(p), std::get<1>(p), std::get<2>(p)); }
inline P3 ground(const P3& p) { return {std::get<0>(p), std::get<1>(p), 0}; }
template <typename Path>
std::vector<P3> path3(const Path& p)
{
    std::vector<P3> r{};
    for (const auto& t : p) { r.push_back(p3(t)); }
    return r;
}
inline std::string show(const std::vector<P3>& p)
{
    std::string s{};
    for (const auto& t : p) { s += s3(t); }
    return s.empty() ? "none" : s;
}

using cart_t = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using hexr_t = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>>;
using hexc_t = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, odd_column_hex>>>>;

/// the neighbours data may flow to (ground positions of the same layer as `u`)
template <typename Lyt>
std::vector<P3> neighbours(const Lyt& l, const P3& u)
{
    std::vector<P3> r{};
    const auto      t = tl<Lyt>(u);
    if constexpr (is_clocked_layout_v<Lyt>)
    {
        for (const auto& v : l.outgoing_clocked_zones(t)) { r.push_back(p3(v)); }
    }
    else
    {
        for (const auto& v : l.adjacent_coordinates(t)) { r.push_back(p3(v)); }
    }
    return r;
}
/// the steps a route may take from u: to free ground positions or to the target; over a wire, on the crossing layer,
/// if wanted and if that is free and does not run along that wire; never along an obstructed connection
template <typename Lyt>
std::vector<P3> steps(const Lyt& l, const P3& u, const P3& target, bool crossings)
{
    std::vector<P3> r{};
    for (const auto& nb : neighbours(l, u))
    {
        auto v = ground(nb);
        if constexpr (has_is_obstructed_coordinate_v<Lyt>)
        {
            if (v != target && l.is_obstructed_coordinate(tl<Lyt>(v)))
            {
                if (!crossings || static_cast<long>(l.z()) < 1) { continue; }
                const P3 up{std::get<0>(v), std::get<1>(v), 1};
                if (l.is_obstructed_coordinate(tl<Lyt>(up))) { continue; }
                if constexpr (is_gate_level_layout_v<Lyt>)
                {
                    const auto t = tl<Lyt>(v);
                    const auto n = l.get_node(t);
                    if (l.is_constant(n) || !l.is_buf(n) || l.is_pi(n) || l.is_po(n)) { continue; }
                    if (l.incoming_data_flow(t).empty() || l.outgoing_data_flow(t).empty()) { continue; }
                    if (std::get<2>(u) != 0)
                    {
                        // running over the wire that feeds v
                        bool along = false;
                        for (const auto& i : l.incoming_data_flow(t)) { along |= p3(i) == ground(u); }
                        if (along) { continue; }
                    }
                }
                else { continue; }
                v = up;
            }
        }
        if constexpr (has_is_obstructed_connection_v<Lyt>)
        {
            if (l.is_obstructed_connection(tl<Lyt>(u), tl<Lyt>(v))) { continue; }
        }
        r.push_back(v);
    }
    return r;
}
/// all positions a route from s to t can pass, with their steps
template <typename Lyt>
std::map<P3, std::vector<P3>> graph_of(const Lyt& l, const P3& s, const P3& t, bool crossings)
{
    std::map<P3, std::vector<P3>> g{};
    std::vector<P3>               todo{s};
    while (!todo.empty())
    {
        const auto u = todo.back();
        todo.pop_back();
        if (g.contains(u)) { continue; }
        auto st = steps(l, u, t, crossings);
        for (const auto& v : st) { todo.push_back(v); }
        g[u] = std::move(st);
    }
    return g;
}
/// length of the cheapest route, -1 if there is none
inline std::int64_t cheapest(const std::map<P3, std::vector<P3>>& g, const P3& s, const P3& t,
                             const std::function<std::int64_t(const P3&, const P3&)>& w)
{
    std::map<P3, std::int64_t>             d{{s, 0}};
    std::set<std::pair<std::int64_t, P3>> q{{0, s}};
    while (!q.empty())
    {
        const auto [x, u] = *q.begin();
        q.erase(q.begin());
        if (u == t) { return x; }
        for (const auto& v : g.at(u))
        {
            const auto y = x + w(u, v);
            if (const auto it = d.find(v); it == d.end() || y < it->second)
            {
                if (it != d.end()) { q.erase({it->second, v}); }
                d[v] = y;
                q.insert({y, v});
            }
        }
    }
    return -1;
}
/// all routes without loops, at most `limit` (returns false if there are more)
inline bool all_routes(const std::map<P3, std::vector<P3>>& g, const P3& s, const P3& t, std::size_t limit, std::vector<std::vector<P3>>& out)
{
    std::vector<P3> p{s};
    std::set<P3>    on{s};
    std::size_t     work = 0;
    const std::function<bool(const P3&)> rec = [&](const P3& u) -> bool
    {
        if (++work > 200 * limit) { return false; }
        if (u == t)
        {
            out.push_back(p);
            return out.size() <= limit;
        }
        for (const auto& v : g.at(u))
        {
            if (on.contains(v)) { continue; }
            on.insert(v);
            p.push_back(v);
            const bool ok = rec(v);
            p.pop_back();
            on.erase(v);
            if (!ok) { return false; }
        }
        return true;
    };
    return rec(s);
}
template <typename Lyt>
bool is_route(const Lyt& l, const std::vector<P3>& p, const P3& s, const P3& t, bool crossings)
{
    if (p.empty() || p.front() != s || p.back() != t) { return false; }
    if (std::set<P3>(p.begin(), p.end()).size() != p.size()) { return false; }
    for (std::size_t i = 0; i + 1 < p.size(); ++i)
    {
        const auto st = steps(l, p[i], t, crossings);
        if (std::find(st.begin(), st.end(), p[i + 1]) == st.end()) { return false; }
    }
    return true;
}

template <typename Lyt>
inline std::vector<std::string> schemes_for()
{
    if constexpr (is_hexagonal_layout_v<Lyt>) { return {"ROW", "COLUMNAR", "2DDWAVEHEX", "OPEN"}; }
    else { return {"2DDWAVE", "USE", "RES", "ESR", "SRS", "CFE", "RIPPLE", "BANCS", "ROW", "COLUMNAR", "2DDWAVE3", "OPEN"}; }
}
/// an empty layout of the given kind; irregular ones get their zones from the context
template <typename Lyt>
Lyt empty_layout(pbt::ctx& c, long X, long Y, long Z, bool irregular = true)
{
    auto names = schemes_for<Lyt>();
    if (!irregular) { names.pop_back(); }
    const auto nm = c.pick(names);
    c.note("scheme ", nm);
    Lyt l{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *get_clocking_scheme<Lyt>(nm)};
    if (nm == "OPEN")
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x) { l.assign_clock_number(tl<Lyt>({x, y, 0}), static_cast<unsigned char>(c.below(4))); }
        }
    }
    return l;
}
}  // namespace lyt
#endif
