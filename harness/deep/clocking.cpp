// P22: clocking schemes, clocked layouts, synchronization elements
#include "pbt.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

#include <algorithm>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>

using namespace fiction;

using cart  = clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>;
using cartc = clocked_layout<tile_based_layout<cartesian_layout<cube::coord_t>>>;
using h_or  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, odd_row_hex>>>;
using h_er  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>;
using h_oc  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, odd_column_hex>>>;
using h_ec  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_column_hex>>>;

// the published cutouts of the schemes without a closed form
static const std::map<std::string, std::vector<std::vector<int>>> CUT = {
    {"USE", {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}}},
    {"RES", {{3, 0, 1, 2}, {0, 1, 0, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}}},
    {"ESR", {{3, 0, 1, 2}, {0, 1, 2, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}}},
    {"CFE", {{0, 1, 0, 1}, {3, 2, 3, 2}, {0, 1, 0, 1}, {3, 2, 3, 2}}},
    {"RIPPLE", {{0, 1, 2, 3}, {3, 2, 1, 0}, {0, 1, 2, 3}, {3, 2, 1, 0}}},
    {"SRS", {{1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 3, 0}, {0, 1, 2, 1}}},
    {"BANCS", {{0, 1, 2}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}}}};

struct scheme
{
    std::string name, lookup;
    int         n;
    bool        regular;
};
static const std::vector<scheme> SCHEMES = {
    {"OPEN", "OPEN", 4, false},         {"OPEN", "OPEN3", 3, false},        {"OPEN", "OPEN4", 4, false},
    {"COLUMNAR", "COLUMNAR", 4, true},  {"COLUMNAR", "COLUMNAR3", 3, true}, {"COLUMNAR", "COLUMNAR4", 4, true},
    {"ROW", "ROW", 4, true},            {"ROW", "ROW3", 3, true},           {"ROW", "ROW4", 4, true},
    {"2DDWAVE", "2DDWAVE", 4, true},    {"2DDWAVE", "2DDWAVE3", 3, true},   {"2DDWAVE", "2DDWAVE4", 4, true},
    {"2DDWAVEHEX", "2DDWAVEHEX", 4, true}, {"2DDWAVEHEX", "2DDWAVEHEX3", 3, true}, {"2DDWAVEHEX", "2DDWAVEHEX4", 4, true},
    {"USE", "USE", 4, true}, {"RES", "RES", 4, true}, {"ESR", "ESR", 4, true}, {"CFE", "CFE", 4, true},
    {"RIPPLE", "RIPPLE", 4, true}, {"SRS", "SRS", 4, true}, {"BANCS", "BANCS", 3, true}};

template <typename Lyt>
std::optional<int> expected(const scheme& s, long x, long y)
{
    if (s.name == "OPEN") { return 0; }
    if (s.name == "COLUMNAR") { return x % s.n; }
    if (s.name == "ROW") { return y % s.n; }
    if (s.name == "2DDWAVE") { return (x + y) % s.n; }
    if (s.name == "2DDWAVEHEX")
    {
        // the wave front moves along the rows (columns), every second one half a tile further
        if constexpr (std::is_same_v<Lyt, h_or>) { return (x + (y + 1) / 2) % s.n; }
        if constexpr (std::is_same_v<Lyt, h_er>) { return (x + y / 2) % s.n; }
        if constexpr (std::is_same_v<Lyt, h_oc>) { return (y + (x + 1) / 2) % s.n; }
        if constexpr (std::is_same_v<Lyt, h_ec>) { return (y + x / 2) % s.n; }
        // on other layouts it falls back to 2DDWave, of four phases
        return std::nullopt;
    }
    const auto& m = CUT.at(s.name);
    return m[static_cast<std::size_t>(y) % m.size()][static_cast<std::size_t>(x) % m[0].size()];
}

template <typename Lyt>
void one_scheme(pbt::ctx& c)
{
    const auto  s = c.pick(SCHEMES);
    std::string nm{};
    for (const char ch : s.lookup) { nm += c.flip() ? static_cast<char>(std::tolower(ch)) : ch; }
    c.note("scheme ", nm);
    const auto cs = get_clocking_scheme<Lyt>(nm);
    REQUIRE_THAT(cs.has_value(), "known schemes are found by name, whatever the case");
    REQUIRE_THAT(!get_clocking_scheme<Lyt>(nm + "x").has_value() && !get_clocking_scheme<Lyt>(" " + nm).has_value(),
                 "unknown names are not found");
    const bool fallback = s.name == "2DDWAVEHEX" && !is_hexagonal_layout_v<Lyt>;
    if (!fallback)
    {
        REQUIRE_EQ(static_cast<int>(cs->num_clocks), s.n, "number of clocks");
        REQUIRE_THAT(*cs == s.name, "the scheme carries its name");
    }
    REQUIRE_EQ(cs->is_regular(), s.regular, "regularity");
    REQUIRE_EQ(is_linear_scheme<Lyt>(*cs), s.name == "COLUMNAR" || s.name == "ROW" || s.name == "2DDWAVE" || s.name == "2DDWAVEHEX",
               "linear schemes");
    const long x0 = c.chance(1, 4) ? c.edgy<std::int32_t>(0, (1 << 30) - 16) : c.in<long>(0, 20);
    const long y0 = c.chance(1, 4) ? c.edgy<std::int32_t>(0, (1 << 30) - 16) : c.in<long>(0, 20);
    c.note("at ", x0, " ", y0);
    c.nontrivial(s.regular && x0 + y0 > 0);
    // one period of the scheme, on both layers
    using C = typename Lyt::coordinate;
    for (long y = y0; y < y0 + 8; ++y)
    {
        for (long x = x0; x < x0 + 4; ++x)
        {
            const int got = (*cs)(C(x, y, 0));
            REQUIRE_THAT(got >= 0 && got < cs->num_clocks, "clock numbers are smaller than the number of clocks");
            if (const auto e = expected<Lyt>(s, x, y)) { REQUIRE_EQ(got, *e, "clock number of (" << x << "," << y << ")"); }
            REQUIRE_EQ(static_cast<int>((*cs)(C(x, y, 1))), got, "both layers of a tile are clocked together");
        }
    }
    // in the interior of a layout, information can enter and leave every tile, within the degrees the scheme states
    const Lyt  lyt{C(x0 + 10, y0 + 10, 0), *cs};
    REQUIRE_THAT(lyt.is_clocking_scheme(nm) == (nm == s.name && !fallback) || fallback, "layouts know their scheme by its name");
    for (long y = y0 + 1; y < y0 + 9; ++y)
    {
        for (long x = x0 + 1; x < x0 + 5; ++x)
        {
            const C    t(x, y, 0);
            const auto in = lyt.incoming_clocked_zones(t), out = lyt.outgoing_clocked_zones(t);
            REQUIRE_EQ(in.size(), static_cast<std::size_t>(lyt.in_degree(t)), "in-degree");
            REQUIRE_EQ(out.size(), static_cast<std::size_t>(lyt.out_degree(t)), "out-degree");
            REQUIRE_EQ(static_cast<std::size_t>(lyt.degree(t)), in.size() + out.size(), "degree");
            for (const auto& i : in)
            {
                const auto& o = lyt.outgoing_clocked_zones(i);
                REQUIRE_THAT(std::find(o.begin(), o.end(), t) != o.end(), "incoming and outgoing are converse");
                REQUIRE_THAT(lyt.is_adjacent_of(t, i), "incoming zones are adjacent");
                REQUIRE_EQ((lyt.get_clock_number(i) + 1) % lyt.num_clocks(), lyt.get_clock_number(t) + 0, "incoming zones are clocked one phase earlier");
            }
            if (s.regular && !is_hexagonal_layout_v<Lyt>)
            {
                REQUIRE_THAT(!in.empty() && !out.empty(), "no dead ends in a regular scheme");
                REQUIRE_THAT(in.size() <= cs->max_in_degree || cs->max_in_degree < lyt.max_fanin_size, "in-degree within the scheme's");
                REQUIRE_THAT(out.size() <= 3, "out-degree");
            }
        }
    }
}
PBT("scheme", 12000, 120000, "a regular scheme away from the origin")
{
    switch (c.systematic(6))
    {
        case 0: return one_scheme<cart>(c);
        case 1: return one_scheme<cartc>(c);
        case 2: return one_scheme<h_or>(c);
        case 3: return one_scheme<h_er>(c);
        case 4: return one_scheme<h_oc>(c);
        default: return one_scheme<h_ec>(c);
    }
}

// information flow under linear schemes is acyclic
template <typename Lyt>
void acyclic(pbt::ctx& c, const std::vector<std::string>& names)
{
    using C       = typename Lyt::coordinate;
    const auto nm = c.pick(names);
    const long X = c.in<long>(0, 9), Y = c.in<long>(0, 9);
    c.note(nm, " ", X, " ", Y);
    c.nontrivial(X * Y > 3);
    const Lyt  lyt{C(X, Y, 0), *get_clocking_scheme<Lyt>(nm)};
    REQUIRE_THAT(is_linear_scheme<Lyt>(lyt.get_clocking_scheme()), "the scheme is registered as linear");
    REQUIRE_THAT(lyt.is_regularly_clocked(), "regular");
    // Kahn's algorithm
    std::map<std::pair<long, long>, int> indeg{};
    std::vector<C>                       ready{};
    lyt.foreach_ground_tile([&](const auto& t)
                            {
                                indeg[{t.x, t.y}] = lyt.in_degree(t);
                                if (lyt.in_degree(t) == 0) { ready.push_back(t); }
                            });
    std::size_t done = 0;
    while (!ready.empty())
    {
        const auto t = ready.back();
        ready.pop_back();
        ++done;
        lyt.foreach_outgoing_clocked_zone(t, [&](const auto& o) { if (--indeg[{o.x, o.y}] == 0) { ready.push_back(o); } });
    }
    REQUIRE_EQ(done, static_cast<std::size_t>((X + 1) * (Y + 1)), "linear schemes have no cyclic information flow");
}
PBT("linear", 6000, 60000, "more than three tiles")
{
    static const std::vector<std::string> car{"COLUMNAR3", "COLUMNAR4", "ROW3", "ROW4", "2DDWAVE3", "2DDWAVE4"};
    static const std::vector<std::string> row{"2DDWAVEHEX3", "2DDWAVEHEX4", "ROW3", "ROW4"};
    static const std::vector<std::string> col{"2DDWAVEHEX3", "2DDWAVEHEX4", "COLUMNAR3", "COLUMNAR4"};
    switch (c.systematic(5))
    {
        case 0: return acyclic<cart>(c, car);
        case 1: return acyclic<h_or>(c, row);
        case 2: return acyclic<h_er>(c, row);
        case 3: return acyclic<h_oc>(c, col);
        default: return acyclic<h_ec>(c, col);
    }
}

// histories of clock assignments, scheme replacements, copies and clones
template <typename Lyt>
struct lmodel
{
    scheme                                         base{};
    bool                                           regular{};
    std::map<std::tuple<long, long, long>, int>    over{};
    [[nodiscard]] int clock(long x, long y, long z) const
    {
        if (const auto it = over.find({x, y, z}); it != over.end()) { return it->second; }
        return *expected<Lyt>(base, x, y);
    }
};
template <typename Lyt>
void history(pbt::ctx& c)
{
    using C = typename Lyt::coordinate;
    std::vector<scheme> ok{};
    for (const auto& s : SCHEMES)
    {
        if (s.name != "2DDWAVEHEX" || is_hexagonal_layout_v<Lyt>) { ok.push_back(s); }
    }
    const long X = c.in<long>(0, 5), Y = c.in<long>(0, 5);
    std::vector<std::pair<Lyt, std::shared_ptr<lmodel<Lyt>>>> ls{};
    {
        const auto s = c.pick(ok);
        auto       m = std::make_shared<lmodel<Lyt>>();
        m->base      = s;
        m->regular   = s.regular;
        c.note("layout ", X, "x", Y, " ", s.lookup);
        if (c.chance(1, 5))
        {
            m->base    = SCHEMES[0];
            m->regular = false;
            ls.emplace_back(Lyt{C(X, Y, 1)}, m);
            c.note("default clocking");
        }
        else { ls.emplace_back(Lyt{C(X, Y, 1), *get_clocking_scheme<Lyt>(s.lookup)}, m); }
    }
    const auto steps  = c.in<int>(1, 14);
    bool       cloned = false, over = false;
    for (int i = 0; i < steps; ++i)
    {
        const auto k = c.below(ls.size());
        auto&      [lyt, m] = ls[k];
        switch (c.below(6))
        {
            case 0:
            case 1:
            case 2:
            {
                const long x = c.in<long>(0, X), y = c.in<long>(0, Y), z = c.in<long>(0, 1);
                const auto n = static_cast<std::uint8_t>(c.below(9));
                c.note("layout ", k, ": clock (", x, ",", y, ",", z, ") = ", int(n));
                lyt.assign_clock_number(C(x, y, z), n);
                m->over[{x, y, z}] = n % m->base.n;
                m->regular         = false;
                over |= cloned;
                break;
            }
            case 3:
            {
                const auto s = c.pick(ok);
                c.note("layout ", k, ": scheme ", s.lookup);
                lyt.replace_clocking_scheme(*get_clocking_scheme<Lyt>(s.lookup));
                m->base    = s;
                m->regular = s.regular;
                m->over.clear();
                break;
            }
            case 4:
            {
                if (ls.size() >= 3) { break; }
                c.note("clone of ", k);
                auto cl = lyt.clone();
                auto cm = std::make_shared<lmodel<Lyt>>(*m);
                ls.emplace_back(std::move(cl), std::move(cm));
                cloned = true;
                break;
            }
            default:
            {
                // a layout clocked by the scheme another one uses right now
                if (ls.size() >= 3) { break; }
                c.note("new layout with the scheme of ", k);
                Lyt  nl{C(X, Y, 1), lyt.get_clocking_scheme()};
                auto cm = std::make_shared<lmodel<Lyt>>(*m);
                ls.emplace_back(std::move(nl), std::move(cm));
                cloned = true;
            }
        }
        for (std::size_t j = 0; j < ls.size(); ++j)
        {
            const auto& [l, mm] = ls[j];
            REQUIRE_EQ(static_cast<int>(l.num_clocks()), mm->base.n, "number of clocks of layout " << j);
            REQUIRE_EQ(l.is_regularly_clocked(), mm->regular, "regularity of layout " << j);
            REQUIRE_THAT(l.is_clocking_scheme(mm->base.name), "name of the scheme of layout " << j);
            for (long z = 0; z < 2; ++z)
                for (long y = 0; y <= Y; ++y)
                    for (long x = 0; x <= X; ++x)
                    {
                        REQUIRE_EQ(static_cast<int>(l.get_clock_number(C(x, y, z))), mm->clock(x, y, z), "clock number of (" << x << "," << y << "," << z << ") in layout " << j);
                    }
            const long x = c.in<long>(0, X), y = c.in<long>(0, Y);
            const C    t(x, y, 0);
            std::set<std::pair<long, long>> in{}, out{}, win{}, wout{};
            l.foreach_incoming_clocked_zone(t, [&](const auto& q) { in.emplace(q.x, q.y); });
            l.foreach_outgoing_clocked_zone(t, [&](const auto& q) { out.emplace(q.x, q.y); });
            for (const auto& a : l.adjacent_coordinates(t))
            {
                if ((mm->clock(a.x, a.y, 0) + 1) % mm->base.n == mm->clock(x, y, 0)) { win.emplace(a.x, a.y); }
                if ((mm->clock(x, y, 0) + 1) % mm->base.n == mm->clock(a.x, a.y, 0)) { wout.emplace(a.x, a.y); }
            }
            REQUIRE_THAT(in == win && out == wout, "incoming and outgoing zones of (" << x << "," << y << ") in layout " << j);
            REQUIRE_THAT(!l.is_incoming_clocked(t, t) && !l.is_outgoing_clocked(t, t), "no zone feeds itself");
        }
    }
    c.nontrivial(over);
}
PBT("history", 10000, 100000, "a clock number was assigned after a clone or copy was made")
{
    switch (c.systematic(4))
    {
        case 0: return history<cart>(c);
        case 1: return history<cartc>(c);
        case 2: return history<h_or>(c);
        default: return history<h_ec>(c);
    }
}

// synchronization elements
template <typename Base>
void sync(pbt::ctx& c)
{
    using Lyt = synchronization_element_layout<Base>;
    using C   = typename Lyt::coordinate;
    using E   = typename Lyt::sync_elem_t;
    const long X = c.in<long>(0, 4), Y = c.in<long>(0, 4);
    std::vector<scheme> ok{};
    for (const auto& s : SCHEMES)
    {
        if (s.name != "2DDWAVEHEX" || is_hexagonal_layout_v<Base>) { ok.push_back(s); }
    }
    const auto s = c.pick(ok);
    c.note("layout ", X, "x", Y, " ", s.lookup);
    std::vector<std::pair<Lyt, std::map<std::pair<long, long>, int>>> ls{};
    ls.emplace_back(Lyt{C(X, Y, 0), *get_clocking_scheme<Lyt>(s.lookup)}, std::map<std::pair<long, long>, int>{});
    const auto steps = c.in<int>(1, 10);
    for (int i = 0; i < steps; ++i)
    {
        const auto k = c.below(ls.size());
        if (ls.size() < 3 && c.chance(1, 6))
        {
            c.note("clone ", k);
            auto cl = ls[k].first.clone();
            auto m  = ls[k].second;
            ls.emplace_back(std::move(cl), std::move(m));
        }
        else
        {
            const long x = c.in<long>(0, X), y = c.in<long>(0, Y);
            const auto e = static_cast<E>(c.chance(1, 3) ? 0 : c.below(4));
            c.note("layout ", k, ": element (", x, ",", y, ") = ", int(e));
            ls[k].first.assign_synchronization_element(C(x, y, 0), e);
            if (e == 0) { ls[k].second.erase({x, y}); }
            else { ls[k].second[{x, y}] = static_cast<int>(e); }
        }
        for (const auto& [l, m] : ls)
        {
            c.nontrivial(ls.size() > 1 && m.size() > 1);
            REQUIRE_EQ(static_cast<std::size_t>(l.num_se()), m.size(), "number of synchronization elements");
            for (long y = 0; y <= Y; ++y)
            {
                for (long x = 0; x <= X; ++x)
                {
                    const C    t(x, y, 0);
                    const auto it = m.find({x, y});
                    REQUIRE_EQ(static_cast<int>(l.get_synchronization_element(t)), it == m.end() ? 0 : it->second, "synchronization element");
                    REQUIRE_EQ(l.is_synchronization_element(t), it != m.end(), "is_synchronization_element");
                    std::multiset<std::pair<long, long>> in{}, out{}, win{}, wout{};
                    for (const auto& q : l.incoming_clocked_zones(t)) { in.emplace(q.x, q.y); }
                    for (const auto& q : l.outgoing_clocked_zones(t)) { out.emplace(q.x, q.y); }
                    const int here = *expected<Base>(s, x, y);
                    for (const auto& a : l.adjacent_coordinates(t))
                    {
                        const bool se    = it != m.end() || m.count({a.x, a.y}) != 0;
                        const int  there = *expected<Base>(s, a.x, a.y);
                        if (se || (there + 1) % s.n == here) { win.emplace(a.x, a.y); }
                        if (se || (here + 1) % s.n == there) { wout.emplace(a.x, a.y); }
                    }
                    REQUIRE_THAT(in == win && out == wout, "a synchronization element connects to all adjacent zones, the others by the clocking; at " << x << "," << y);
                    REQUIRE_EQ(static_cast<std::size_t>(l.in_degree(t)), win.size(), "in-degree");
                    REQUIRE_EQ(static_cast<std::size_t>(l.out_degree(t)), wout.size(), "out-degree");
                }
            }
        }
    }
}
PBT("sync", 10000, 100000, "a cloned layout with more than one synchronization element")
{
    if (c.systematic(2) == 0) { return sync<cart>(c); }
    return sync<h_er>(c);
}
