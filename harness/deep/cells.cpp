// P24: cell-level layouts, obstructions, bounding boxes, surface defects, physical positions
#include "pbt.hpp"

#include <fiction/layouts/bounding_box.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/area.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/sidb_nm_distance.hpp>
#include <fiction/technology/sidb_nm_position.hpp>

#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <vector>

using namespace fiction;
using P3 = std::tuple<long, long, long>;

template <typename Tech, typename Coord>
using cells_t = cell_level_layout<Tech, clocked_layout<cartesian_layout<Coord>>>;

static std::string s3(const P3& p)
{
    return "(" + std::to_string(std::get<0>(p)) + "," + std::to_string(std::get<1>(p)) + "," + std::to_string(std::get<2>(p)) + ")";
}
template <typename T>
P3 p3(const T& t) { return {static_cast<long>(t.x), static_cast<long>(t.y), static_cast<long>(t.z)}; }
template <typename Lyt>
auto cl(const P3& p) { return typename Lyt::coordinate(std::get<0>(p), std::get<1>(p), std::get<2>(p)); }

// ---------------------------------------------------------------------------------------------- technologies
template <typename Tech> struct tech_info;
template <> struct tech_info<qca_technology>
{
    using T = qca_technology;
    static std::vector<T::cell_type> types() { return {T::cell_type::EMPTY, T::cell_type::NORMAL, T::cell_type::INPUT, T::cell_type::OUTPUT, T::cell_type::CONST_0, T::cell_type::CONST_1}; }
    static std::vector<T::cell_mode> modes() { return {T::cell_mode::NORMAL, T::cell_mode::ROTATED, T::cell_mode::VERTICAL, T::cell_mode::CROSSOVER}; }
};
template <> struct tech_info<mol_qca_technology>
{
    using T = mol_qca_technology;
    static std::vector<T::cell_type> types() { return {T::cell_type::EMPTY, T::cell_type::NORMAL1, T::cell_type::NORMAL2, T::cell_type::NORMAL3, T::cell_type::NORMAL4, T::cell_type::INPUT, T::cell_type::OUTPUT, T::cell_type::CONST_1}; }
    static std::vector<T::cell_mode> modes() { return {T::cell_mode::NORMAL, T::cell_mode::ROTATED, T::cell_mode::VERTICAL, T::cell_mode::CROSSOVER}; }
};
template <> struct tech_info<inml_technology>
{
    using T = inml_technology;
    static std::vector<T::cell_type> types() { return {T::cell_type::EMPTY, T::cell_type::NORMAL, T::cell_type::INPUT, T::cell_type::OUTPUT, T::cell_type::SLANTED_EDGE_UP_MAGNET, T::cell_type::SLANTED_EDGE_DOWN_MAGNET, T::cell_type::INVERTER_MAGNET, T::cell_type::CROSSWIRE_MAGNET, T::cell_type::FANOUT_COUPLER_MAGNET}; }
    static std::vector<T::cell_mode> modes() { return {T::cell_mode{}}; }
};
template <> struct tech_info<sidb_technology>
{
    using T = sidb_technology;
    static std::vector<T::cell_type> types() { return {T::cell_type::EMPTY, T::cell_type::NORMAL, T::cell_type::INPUT, T::cell_type::OUTPUT, T::cell_type::LOGIC}; }
    static std::vector<T::cell_mode> modes() { return {T::cell_mode{}}; }
};

template <typename Lyt>
struct cell_model
{
    using tech = typename Lyt::technology;
    std::map<P3, typename tech::cell_type> type{};
    std::map<P3, unsigned>                 mode{};  // index into modes()
    std::map<P3, std::string>              name{};
    std::string                            title{};
    long                                   tx{1}, ty{1}, X{}, Y{}, Z{};
    std::map<P3, unsigned>                 clock{};
};

// column-major 4-phase reference schemes of the clocking family; the clock number of a cell is that of its zone
static unsigned zone_number(unsigned scheme, long x, long y)
{
    static const unsigned USE[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}};
    static const unsigned RES[4][4] = {{3, 0, 1, 2}, {0, 1, 0, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}};
    switch (scheme)
    {
        case 0: return static_cast<unsigned>(x & 3);
        case 1: return static_cast<unsigned>((x + y) & 3);
        case 2: return USE[y & 3][x & 3];
        default: return RES[y & 3][x & 3];
    }
}

template <typename Lyt>
void check_cells(pbt::ctx& c, const Lyt& l, const cell_model<Lyt>& m, unsigned scheme, const std::string& who)
{
    using tech = typename Lyt::technology;
    const auto modes = tech_info<tech>::modes();
    REQUIRE_EQ(l.get_layout_name(), m.title, "layout name" << who);
    REQUIRE_EQ(static_cast<long>(l.get_tile_size_x()), m.tx, "tile size x" << who);
    REQUIRE_EQ(static_cast<long>(l.get_tile_size_y()), m.ty, "tile size y" << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_cells()), m.type.size(), "number of cells" << who);
    REQUIRE_EQ(l.is_empty(), m.type.empty(), "is_empty" << who);
    std::set<P3> all{}, pis{}, pos{}, want{}, wpi{}, wpo{};
    std::size_t  n = 0, ni = 0, no = 0;
    l.foreach_cell([&](const auto& q) { all.insert(p3(q)); ++n; });
    l.foreach_pi([&](const auto& q) { pis.insert(p3(q)); ++ni; });
    l.foreach_po([&](const auto& q) { pos.insert(p3(q)); ++no; });
    std::map<typename tech::cell_type, std::set<P3>> by{};
    for (const auto& [q, t] : m.type)
    {
        want.insert(q);
        if (t == tech::cell_type::INPUT) { wpi.insert(q); }
        if (t == tech::cell_type::OUTPUT) { wpo.insert(q); }
        by[t].insert(q);
    }
    REQUIRE_THAT(all == want && n == want.size(), "the cells visited are not the cells assigned" << who);
    REQUIRE_THAT(pis == wpi && ni == wpi.size(), "input cells" << who);
    REQUIRE_THAT(pos == wpo && no == wpo.size(), "output cells" << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_pis()), wpi.size(), "number of inputs" << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_pos()), wpo.size(), "number of outputs" << who);
    for (const auto t : tech_info<tech>::types())
    {
        if (t == tech::cell_type::EMPTY) { continue; }
        std::set<P3> got{};
        const auto   v = l.get_cells_by_type(t);
        for (const auto& q : v) { got.insert(p3(q)); }
        REQUIRE_THAT(got == by[t] && v.size() == by[t].size(), "cells of type '" << static_cast<char>(t) << "'" << who);
        REQUIRE_EQ(static_cast<std::size_t>(l.num_cells_of_given_type(t)), by[t].size(), "number of cells of a type" << who);
    }
    std::size_t seen = 0;
    l.foreach_cell_position(
        [&](const auto& q)
        {
            ++seen;
            const auto p  = p3(q);
            const auto it = m.type.find(p);
            const auto t  = it == m.type.end() ? tech::cell_type::EMPTY : it->second;
            REQUIRE_THAT(l.get_cell_type(q) == t, "type of " << s3(p) << who);
            REQUIRE_EQ(l.is_empty_cell(q), t == tech::cell_type::EMPTY, "is_empty_cell " << s3(p) << who);
            REQUIRE_EQ(l.is_pi(q), wpi.count(p) > 0, "is_pi " << s3(p) << who);
            REQUIRE_EQ(l.is_po(q), wpo.count(p) > 0, "is_po " << s3(p) << who);
            const auto nm = m.name.find(p);
            REQUIRE_EQ(l.get_cell_name(q), nm == m.name.end() ? std::string{} : nm->second, "name of " << s3(p) << who);
            if constexpr (std::is_enum_v<typename tech::cell_mode>)
            {
                const auto md = m.mode.find(p);
                REQUIRE_EQ(static_cast<unsigned>(l.get_cell_mode(q)), static_cast<unsigned>(modes[md == m.mode.end() ? 0 : md->second]), "mode of " << s3(p) << who);
            }
            const auto [x, y, z] = p;
            const auto zx = x / m.tx, zy = y / m.ty;
            const auto ck = m.clock.find({zx, zy, z});
            const auto w  = ck != m.clock.end() ? ck->second : zone_number(scheme, zx, zy);
            REQUIRE_EQ(static_cast<unsigned>(l.get_clock_number(q)), w, "clock number of " << s3(p) << " with tiles of " << m.tx << "x" << m.ty << who);
        });
    REQUIRE_EQ(seen, static_cast<std::size_t>((m.X + 1) * (m.Y + 1) * (m.Z + 1)), "cell positions" << who);
    // the area of the layout
    using A = area_params<tech>;
    A ps{};
    if (c.flip()) { ps.width = 3.5; ps.height = 0.25; ps.hspace = 1; ps.vspace = 7; }
    area_stats st{};
    const auto a = area(l, ps, &st);
    const double W = static_cast<double>(m.X + 1) * ps.width + static_cast<double>(m.X) * ps.hspace;
    double H = static_cast<double>(m.Y + 1) * ps.height + static_cast<double>(m.Y) * ps.vspace;
    REQUIRE_THAT(std::abs(st.width - W) <= 1e-9 * W && std::abs(st.height - H) <= 1e-9 * H, "width " << st.width << " height " << st.height << ", not " << W << " " << H << who);
    REQUIRE_THAT(std::abs(a - W * H) <= 1e-9 * W * H && st.area == a, "area " << a << who);
}

template <typename Lyt>
void cell_history(pbt::ctx& c)
{
    using tech = typename Lyt::technology;
    constexpr bool SQ = std::is_same_v<typename Lyt::coordinate, siqad::coord_t>;
    const auto types = tech_info<tech>::types();
    const auto modes = tech_info<tech>::modes();
    std::vector<std::pair<Lyt, cell_model<Lyt>>> ls{};
    ls.reserve(2);
    cell_model<Lyt> m0{};
    m0.X = static_cast<long>(c.in<int>(0, 6));
    m0.Y = static_cast<long>(c.in<int>(0, 6));
    m0.Z = SQ ? 1 : static_cast<long>(c.below(2));
    m0.tx = static_cast<long>(c.in<int>(1, 4));
    m0.ty = static_cast<long>(c.in<int>(1, 4));
    m0.title = c.flip() ? "lyt" : "";
    const auto scheme = static_cast<unsigned>(c.below(4));
    using CL = clocked_layout<cartesian_layout<typename Lyt::coordinate>>;
    const auto sch = scheme == 0 ? columnar_clocking<CL>() : scheme == 1 ? twoddwave_clocking<CL>() : scheme == 2 ? use_clocking<CL>() : res_clocking<CL>();
    c.note("layout ", m0.X, " ", m0.Y, " ", m0.Z, " tile ", m0.tx, "x", m0.ty, " scheme ", scheme);
    ls.push_back({Lyt{typename Lyt::aspect_ratio(m0.X, m0.Y, m0.Z), sch, m0.title, static_cast<std::uint16_t>(m0.tx), static_cast<std::uint16_t>(m0.ty)}, m0});
    const auto steps = c.in<std::size_t>(1, 25);
    bool overwritten = false;
    for (std::size_t st = 0; st < steps; ++st)
    {
        const auto k = c.below(ls.size());
        auto& [l, m] = ls[k];
        const P3   p{static_cast<long>(c.below(static_cast<std::uint64_t>(m.X) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(m.Y) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(m.Z) + 1))};
        const auto q = cl<Lyt>(p);
        const auto who = " in layout " + std::to_string(k);
        switch (c.below(11))
        {
            case 0: case 1: case 2: case 3:
            {
                const auto t = c.pick(types);
                c.note(s3(p), " = '", std::string(1, static_cast<char>(t)), "'", who);
                overwritten |= m.type.count(p) > 0;
                l.assign_cell_type(q, t);
                if (t == tech::cell_type::EMPTY) { m.type.erase(p); m.mode.erase(p); }
                else { m.type[p] = t; }
                break;
            }
            case 4: case 5:
            {
                const auto i = static_cast<unsigned>(c.below(modes.size()));
                c.note("mode ", s3(p), " = ", i, who);
                l.assign_cell_mode(q, modes[i]);
                if (i == 0) { m.mode.erase(p); } else { m.mode[p] = i; }
                break;
            }
            case 6:
            {
                const std::string nm = c.chance(1, 3) ? "" : "c" + std::to_string(c.below(3));
                c.note("name ", s3(p), " = ", nm, who);
                l.assign_cell_name(q, nm);
                if (nm.empty()) { m.name.erase(p); } else { m.name[p] = nm; }
                break;
            }
            case 7:
            {
                m.tx = static_cast<long>(c.in<int>(1, 5));
                m.ty = static_cast<long>(c.in<int>(1, 5));
                c.note("tile ", m.tx, "x", m.ty, who);
                l.set_tile_size_x(static_cast<std::uint16_t>(m.tx));
                l.set_tile_size_y(static_cast<std::uint16_t>(m.ty));
                break;
            }
            case 8:
            {
                m.title = "t" + std::to_string(c.below(3));
                l.set_layout_name(m.title);
                break;
            }
            case 9:
            {
                // an irregular clock number of a zone
                const auto [x, y, z] = p;
                const P3   zn{x / m.tx, y / m.ty, z};
                const auto num = static_cast<unsigned>(c.below(4));
                c.note("clock zone ", s3(zn), " = ", num, who);
                l.assign_clock_number(cl<Lyt>(zn), static_cast<typename Lyt::clock_number_t>(num));
                m.clock[zn] = num;
                break;
            }
            default:
            {
                if (ls.size() >= 2) { break; }
                c.note("clone");
                auto cp = l.clone();
                auto cm = m;
                ls.push_back({std::move(cp), std::move(cm)});
            }
        }
        for (std::size_t j = 0; j < ls.size(); ++j)
        {
            if (j == k || st + 1 == steps) { check_cells(c, ls[j].first, ls[j].second, scheme, " in layout " + std::to_string(j)); }
        }
    }
    c.nontrivial(overwritten && ls[0].second.type.size() > 1);
}
PBT("cells.qca", 6000, 60000, "a cell was assigned twice, two or more left") { cell_history<cells_t<qca_technology, offset::ucoord_t>>(c); }
PBT("cells.qca_stacked", 3000, 30000, "a cell was assigned twice, two or more left") { cell_history<cells_t<qca_technology, cube::coord_t>>(c); }
PBT("cells.mol_qca", 3000, 30000, "a cell was assigned twice, two or more left") { cell_history<cells_t<mol_qca_technology, offset::ucoord_t>>(c); }
PBT("cells.inml", 3000, 30000, "a cell was assigned twice, two or more left") { cell_history<cells_t<inml_technology, offset::ucoord_t>>(c); }
PBT("cells.sidb", 3000, 30000, "a cell was assigned twice, two or more left") { cell_history<cells_t<sidb_technology, cube::coord_t>>(c); }
PBT("cells.sidb_siqad", 3000, 30000, "a cell was assigned twice, two or more left") { cell_history<cells_t<sidb_technology, siqad::coord_t>>(c); }

// ---------------------------------------------------------------------------------------------- obstructions
using gate_t = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
template <typename Base>
void obstruction_history(pbt::ctx& c)
{
    constexpr bool GATE = std::is_same_v<Base, gate_t>;
    using L = obstruction_layout<Base>;
    const long X = static_cast<long>(c.in<int>(1, 4)), Y = static_cast<long>(c.in<int>(1, 4)), Z = 1;
    Base base{typename Base::aspect_ratio(X, Y, Z)};
    L    l{base};
    using Pair = std::pair<P3, P3>;
    std::set<P3>   oc{};
    std::set<Pair> on{};
    std::set<P3>   content{};
    std::map<P3, std::vector<P3>> kids{};
    const auto pick = [&] { return P3{static_cast<long>(c.below(static_cast<std::uint64_t>(X) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(Y) + 1)), static_cast<long>(c.below(2))}; };
    const auto steps = c.in<std::size_t>(1, 25);
    bool cleared = false;
    for (std::size_t st = 0; st < steps; ++st)
    {
        const auto p = pick(), q = pick();
        const auto tp = cl<Base>(p), tq = cl<Base>(q);
        switch (c.below(9))
        {
            case 0: case 1: c.note("obstruct ", s3(p)); l.obstruct_coordinate(tp); oc.insert(p); break;
            case 2: case 3: c.note("obstruct ", s3(p), s3(q)); l.obstruct_connection(tp, tq); on.insert({p, q}); break;
            case 4: c.note("clear ", s3(p)); cleared |= oc.count(p) > 0; l.clear_obstructed_coordinate(tp); oc.erase(p); break;
            case 5:
            {
                const auto pr = on.empty() || c.flip() ? Pair{p, q} : c.pick(on);
                c.note("clear ", s3(pr.first), s3(pr.second));
                cleared |= on.count(pr) > 0;
                l.clear_obstructed_connection(cl<Base>(pr.first), cl<Base>(pr.second));
                on.erase(pr);
                break;
            }
            case 6:
                if (!c.chance(1, 3)) { break; }
                if (c.flip()) { c.note("clear coordinates"); l.clear_obstructed_coordinates(); oc.clear(); }
                else { c.note("clear connections"); l.clear_obstructed_connections(); on.clear(); }
                break;
            default:
            {
                // content of the underlying layout obstructs by itself and is not cleared with the obstructions
                if constexpr (GATE)
                {
                    if (c.chance(1, 4)) { c.note("empty ", s3(p)); l.clear_tile(tp); content.erase(p); kids.erase(p); }
                    else if (!content.count(p))
                    {
                        // the inputs of a gate are placed on other tiles
                        std::vector<P3> ks{};
                        for (const auto& o : content) { if (ks.size() < 2 && o != p) { ks.push_back(o); } }
                        std::string s{};
                        for (const auto& o : ks) { s += s3(o); }
                        c.note("gate ", s3(p), " of ", s);
                        using sg = mockturtle::signal<Base>;
                        if (ks.empty()) { l.create_pi("i", tp); }
                        else if (ks.size() == 1) { l.create_buf(static_cast<sg>(cl<Base>(ks[0])), tp); }
                        else { l.create_and(static_cast<sg>(cl<Base>(ks[0])), static_cast<sg>(cl<Base>(ks[1])), tp); }
                        content.insert(p);
                        kids[p] = ks;
                    }
                }
                else
                {
                    const bool e = c.chance(1, 3);
                    c.note("cell ", s3(p), e ? " empty" : " normal");
                    l.assign_cell_type(tp, e ? Base::technology::cell_type::EMPTY : Base::technology::cell_type::NORMAL);
                    if (e) { content.erase(p); } else { content.insert(p); }
                }
            }
        }
        l.foreach_coordinate([&](const auto& k)
        {
            const auto a = p3(k);
            REQUIRE_EQ(l.is_obstructed_coordinate(k), oc.count(a) + content.count(a) > 0, "obstruction of " << s3(a));
        });
        for (std::size_t i = 0; i < 20; ++i)
        {
            const auto a = i == 0 ? p : pick(), b = i == 0 ? q : pick();
            bool w = on.count({a, b}) > 0;
            if constexpr (GATE)
            {
                // a signal of the layout below (P23 decides which there are)
                using sg = mockturtle::signal<Base>;
                if (base.is_incoming_signal(cl<Base>(b), static_cast<sg>(cl<Base>(a))) || base.is_outgoing_signal(cl<Base>(a), static_cast<sg>(cl<Base>(b)))) { w = true; }
            }
            REQUIRE_EQ(l.is_obstructed_connection(cl<Base>(a), cl<Base>(b)), w, "obstruction of " << s3(a) << " -> " << s3(b));
        }
        for (const auto& [a, b] : on) { REQUIRE_THAT(l.is_obstructed_connection(cl<Base>(a), cl<Base>(b)), "obstruction of " << s3(a) << " -> " << s3(b) << " is lost"); }
    }
    // an obstruction layout of an obstruction layout is that layout
    obstruction_layout<L> ll{l};
    l.foreach_coordinate([&](const auto& k) { REQUIRE_EQ(ll.is_obstructed_coordinate(k), l.is_obstructed_coordinate(k), "stacked obstruction layouts"); });
    c.nontrivial(cleared && !content.empty());
}
PBT("obstruction.gates", 6000, 60000, "an obstruction was taken back, the layout is not empty") { obstruction_history<gate_t>(c); }
PBT("obstruction.cells", 4000, 40000, "an obstruction was taken back, the layout is not empty") { obstruction_history<cells_t<qca_technology, offset::ucoord_t>>(c); }

// ---------------------------------------------------------------------------------------------- bounding boxes
template <typename Lyt>
P3 row(const P3& p)  // position and row in a 2D grid
{
    const auto [x, y, z] = p;
    if constexpr (std::is_same_v<typename Lyt::coordinate, siqad::coord_t>) { return {x, 2 * y + z, 0}; }
    else { return {x, y, 0}; }
}
template <typename Lyt>
void check_box(const bounding_box_2d<Lyt>& bb, const std::set<P3>& pts, const std::string& when)
{
    long x0 = 0, x1 = 0, y0 = 0, y1 = 0;
    if (!pts.empty())
    {
        x0 = y0 = std::numeric_limits<long>::max();
        x1 = y1 = std::numeric_limits<long>::min();
    }
    for (const auto& p : pts)
    {
        const auto [x, y, z] = row<Lyt>(p);
        x0 = std::min(x0, x); x1 = std::max(x1, x);
        y0 = std::min(y0, y); y1 = std::max(y1, y);
    }
    const auto mn = row<Lyt>(p3(bb.get_min())), mx = row<Lyt>(p3(bb.get_max()));
    REQUIRE_THAT(mn == P3(x0, y0, 0), "the box starts at " << s3(p3(bb.get_min())) << ", the contents at column " << x0 << " row " << y0 << when);
    REQUIRE_THAT(mx == P3(x1, y1, 0), "the box ends at " << s3(p3(bb.get_max())) << ", the contents at column " << x1 << " row " << y1 << when);
    REQUIRE_EQ(static_cast<long>(bb.get_x_size()), x1 - x0, "width of the box" << when);
    if constexpr (!std::is_same_v<typename Lyt::coordinate, siqad::coord_t>)
    {
        REQUIRE_EQ(static_cast<long>(bb.get_y_size()), y1 - y0, "height of the box" << when);
    }
}
template <typename Lyt>
void box_cells(pbt::ctx& c)
{
    using base = Lyt;
    using CO   = typename base::coordinate;
    constexpr bool DEF = is_sidb_defect_surface_v<Lyt>;
    constexpr bool NEG = !std::is_same_v<CO, offset::ucoord_t>;
    constexpr bool SQ  = std::is_same_v<CO, siqad::coord_t>;
    const long X = static_cast<long>(c.in<int>(1, 12)), Y = static_cast<long>(c.in<int>(1, 12));
    Lyt l{typename Lyt::aspect_ratio(X, Y, 1)};
    const bool neg = NEG && c.flip();
    const auto pick = [&]
    {
        const long z = SQ || c.chance(1, 5) ? static_cast<long>(c.below(2)) : 0;
        return P3{static_cast<long>(c.below(static_cast<std::uint64_t>(X) + 1)) - (neg ? X / 2 : 0), static_cast<long>(c.below(static_cast<std::uint64_t>(Y) + 1)) - (neg ? Y / 2 : 0), z};
    };
    std::set<P3> cells{}, defects{};
    const auto bound = [&]
    {
        auto s = cells;
        s.insert(defects.begin(), defects.end());
        return s;
    };
    bounding_box_2d<Lyt> bb{l};
    const auto           steps = c.below(7);
    for (std::size_t i = 0; i <= steps; ++i)
    {
        if (i > 0)
        {
            const auto p = !bound().empty() && c.chance(1, 4) ? c.pick(bound()) : pick();
            const bool e = c.chance(1, 3);
            bool d = false;
            if constexpr (DEF)
            {
                if ((d = c.flip()))
                {
                    l.assign_sidb_defect(cl<Lyt>(p), sidb_defect{e ? sidb_defect_type::NONE : sidb_defect_type::DB, -1, 5, 5});
                    if (e) { defects.erase(p); } else { defects.insert(p); }
                }
            }
            if (!d)
            {
                l.assign_cell_type(cl<Lyt>(p), e ? Lyt::technology::cell_type::EMPTY : Lyt::technology::cell_type::NORMAL);
                if (e) { cells.erase(p); } else { cells.insert(p); }
            }
            c.note(d ? "defect " : "cell ", s3(p), e ? " removed" : "");
        }
        const auto pts = bound();
        check_box<Lyt>(bounding_box_2d<Lyt>{l}, pts, " (new)");
        bb.update_bounding_box();
        check_box<Lyt>(bb, pts, " (updated)");
        if constexpr (!SQ)
        {
            area_params<typename Lyt::technology> ps{};
            ps.width = 2; ps.height = 3; ps.hspace = 0.5; ps.vspace = 0.25;
            const auto w = static_cast<double>(bb.get_x_size()), h = static_cast<double>(bb.get_y_size());
            REQUIRE_THAT(std::abs(area(bb, ps) - ((w + 1) * 2 + w * 0.5) * ((h + 1) * 3 + h * 0.25)) < 1e-6, "area of the box");
        }
        c.nontrivial(pts.size() > 2);
    }
}
PBT("box.cells.qca", 5000, 50000, "three or more cells or defects") { box_cells<cells_t<qca_technology, offset::ucoord_t>>(c); }
PBT("box.cells.sidb", 4000, 40000, "three or more cells or defects") { box_cells<cells_t<sidb_technology, cube::coord_t>>(c); }
PBT("box.cells.siqad", 4000, 40000, "three or more cells or defects") { box_cells<cells_t<sidb_technology, siqad::coord_t>>(c); }
PBT("box.surface.offset", 5000, 50000, "three or more cells or defects") { box_cells<sidb_defect_surface<cells_t<sidb_technology, offset::ucoord_t>>>(c); }
PBT("box.surface.cube", 5000, 50000, "three or more cells or defects") { box_cells<sidb_defect_surface<cells_t<sidb_technology, cube::coord_t>>>(c); }
PBT("box.surface.siqad", 8000, 80000, "three or more cells or defects") { box_cells<sidb_defect_surface<cells_t<sidb_technology, siqad::coord_t>>>(c); }
PBT("box.gates", 5000, 50000, "three or more tiles")
{
    const long X = static_cast<long>(c.in<int>(1, 9)), Y = static_cast<long>(c.in<int>(1, 9));
    gate_t l{gate_t::aspect_ratio(X, Y, 1)};
    std::set<P3> pts{};
    for (auto n = c.below(8); n > 0; --n)
    {
        const P3 p{static_cast<long>(c.below(static_cast<std::uint64_t>(X) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(Y) + 1)), static_cast<long>(c.below(2))};
        if (c.chance(1, 4)) { l.clear_tile(cl<gate_t>(p)); pts.erase(p); }
        else { l.create_pi("i", cl<gate_t>(p)); pts.insert(p); }
        c.note(s3(p));
    }
    check_box<gate_t>(bounding_box_2d<gate_t>{l}, pts, "");
    c.nontrivial(pts.size() > 2);
}

// ---------------------------------------------------------------------------------------------- defects
template <typename Base>
void surface_history(pbt::ctx& c)
{
    using L = sidb_defect_surface<Base>;
    using T = sidb_defect_type;
    static const std::vector<T> ALL{T::NONE, T::DB, T::SI_VACANCY, T::SINGLE_DIHYDRIDE, T::DIHYDRIDE_PAIR, T::ONE_BY_ONE, T::THREE_BY_ONE, T::SILOXANE, T::RAISED_SI, T::MISSING_DIMER, T::ETCH_PIT, T::STEP_EDGE, T::GUNK, T::ARSENIC, T::UNKNOWN};
    constexpr bool SQ = std::is_same_v<typename Base::coordinate, siqad::coord_t>;
    const long X = static_cast<long>(c.in<int>(1, 40)), Y = static_cast<long>(c.in<int>(1, 30)), Z = SQ ? 1 : 0;
    sidb_defect_surface_params ps{};
    for (auto n = c.below(4); n > 0; --n)
    {
        const auto t = ALL[c.in<std::size_t>(1, ALL.size() - 1)];
        ps.ignore.insert(t);
        c.note("ignore ", static_cast<unsigned>(t));
    }
    std::vector<std::pair<L, std::map<P3, sidb_defect>>> ls{};
    ls.reserve(2);
    if (c.flip()) { ls.push_back({L{typename L::aspect_ratio(X, Y, Z), ps}, {}}); }
    else { Base b{typename Base::aspect_ratio(X, Y, Z)}; ls.push_back({L{b, ps}, {}}); }
    c.note("surface ", X, " ", Y);
    bool moved = false;
    const auto steps = c.in<std::size_t>(1, 16);
    for (std::size_t st = 0; st < steps; ++st)
    {
        const auto k = c.below(ls.size());
        auto& [l, m] = ls[k];
        const auto pick = [&] { return !m.empty() && c.chance(1, 3) ? c.pick(m).first : P3{static_cast<long>(c.below(static_cast<std::uint64_t>(X) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(Y) + 1)), SQ ? static_cast<long>(c.below(2)) : 0}; };
        const auto p = pick(), q = pick();
        const auto who = " in surface " + std::to_string(k);
        switch (c.below(6))
        {
            case 0: case 1: case 2:
            {
                const sidb_defect d{c.pick(ALL), static_cast<std::int64_t>(c.in<int>(-2, 2)), 5.6, 5.0};
                c.note("defect ", s3(p), " type ", static_cast<unsigned>(d.type), " charge ", d.charge, who);
                l.assign_sidb_defect(cl<L>(p), d);
                m.erase(p);
                if (d.type != T::NONE && !ps.ignore.count(d.type)) { m.insert({p, d}); }
                break;
            }
            case 3: case 4:
            {
                c.note("move ", s3(p), " to ", s3(q), who);
                l.move_sidb_defect(cl<L>(p), cl<L>(q));
                if (const auto it = m.find(p); it != m.end())
                {
                    const auto d = it->second;
                    m.erase(it);
                    m.insert_or_assign(q, d);
                    moved = true;
                }
                break;
            }
            default:
                if (ls.size() < 2)
                {
                    c.note("clone");
                    auto cp = l.clone();
                    auto cm = m;
                    ls.push_back({std::move(cp), std::move(cm)});
                }
        }
        for (std::size_t j = 0; j < ls.size(); ++j)
        {
            auto& [s, w] = ls[j];
            const auto wh = " in surface " + std::to_string(j);
            std::map<P3, sidb_defect> got{};
            s.foreach_sidb_defect([&](const auto& e) { got.insert({p3(e.first), e.second}); });
            REQUIRE_THAT(got == w, "defects visited, " << got.size() << " for " << w.size() << wh);
            REQUIRE_EQ(static_cast<std::size_t>(s.num_defects()), w.size(), "number of defects" << wh);
            std::size_t pos = 0, neg = 0, neu = 0;
            for (const auto& [a, d] : w)
            {
                REQUIRE_THAT(s.get_sidb_defect(cl<L>(a)) == d, "defect at " << s3(a) << wh);
                pos += d.charge > 0;
                neg += d.charge < 0;
                neu += d.charge == 0 && d.type != T::DB && d.type != T::SI_VACANCY && d.type != T::ARSENIC;
            }
            for (const auto& a : {p, q})
            {
                if (!w.count(a)) { REQUIRE_THAT(s.get_sidb_defect(cl<L>(a)).type == T::NONE, "no defect at " << s3(a) << wh); }
            }
            REQUIRE_EQ(s.num_positively_charged_defects(), pos, "positively charged defects" << wh);
            REQUIRE_EQ(s.num_negatively_charged_defects(), neg, "negatively charged defects" << wh);
            REQUIRE_EQ(s.num_charged_defects(), pos + neg, "charged defects" << wh);
            REQUIRE_EQ(s.num_neutral_defects(), neu, "neutral defects" << wh);
        }
        if (st + 1 == steps || c.chance(1, 6))
        {
            // what is affected: everything within the extent of a defect, in the bounds of the layout
            using ov = std::optional<std::pair<std::uint16_t, std::uint16_t>>;
            const auto any = [&]() -> ov { return c.flip() ? ov{} : ov{{static_cast<std::uint16_t>(c.below(7)), static_cast<std::uint16_t>(c.below(5))}}; };
            const auto co = any(), no = any();
            std::set<P3> all{};
            for (const auto& [a, d] : m)
            {
                const bool ch = d.charge != 0 || d.type == T::DB || d.type == T::SI_VACANCY || d.type == T::ARSENIC;
                const auto h  = ch ? (co ? co->first : 26) : (no ? no->first : 1);
                const auto v  = ch ? (co ? co->second : 13) : (no ? no->second : 0);
                std::set<P3> want{}, got{};
                const auto [x, y, z] = a;
                // (the bounds of layouts with signed coordinates are upper bounds)
                constexpr long LOW = std::is_same_v<typename Base::coordinate, offset::ucoord_t> ? 0 : -1000;
                for (long j = std::max(LOW, y - v); j <= std::min(Y, y + v); ++j)
                {
                    for (long i = std::max(LOW, x - h); i <= std::min(X, x + h); ++i) { want.insert({i, j, z}); }
                }
                const auto r = l.affected_sidbs(cl<L>(a), co, no);
                for (const auto& e : r) { got.insert(p3(e)); }
                REQUIRE_THAT(got == want && r.size() == want.size(), "SiDBs affected by the defect at " << s3(a) << " with extent " << h << "," << v << ": " << got.size() << ", not " << want.size() << who);
                all.insert(want.begin(), want.end());
            }
            if (!m.count(p)) { REQUIRE_THAT(l.affected_sidbs(cl<L>(p)).empty(), "SiDBs affected by nothing"); }
            std::optional<std::pair<std::uint64_t, std::uint64_t>> c64{}, n64{};
            if (co) { c64 = {co->first, co->second}; }
            if (no) { n64 = {no->first, no->second}; }
            std::set<P3> got{};
            for (const auto& e : l.all_affected_sidbs(c64, n64)) { got.insert(p3(e)); }
            REQUIRE_THAT(got == all, "all affected SiDBs: " << got.size() << ", not " << all.size() << who);
        }
    }
    c.nontrivial(moved && ls[0].second.size() > 1);
}
PBT("surface.offset", 2000, 20000, "a defect was moved, two or more left") { surface_history<cells_t<sidb_technology, offset::ucoord_t>>(c); }
PBT("surface.cube", 1000, 10000, "a defect was moved, two or more left") { surface_history<cells_t<sidb_technology, cube::coord_t>>(c); }
PBT("surface.siqad", 2000, 20000, "a defect was moved, two or more left") { surface_history<cells_t<sidb_technology, siqad::coord_t>>(c); }

// ---------------------------------------------------------------------------------------------- physical positions
template <typename Lyt>
void positions(pbt::ctx& c, double a, double b, double cx, double cy)
{
    using CO = typename Lyt::coordinate;
    constexpr bool SQ = std::is_same_v<CO, siqad::coord_t>;
    constexpr bool NEG = !std::is_same_v<CO, offset::ucoord_t>;
    Lyt l{};
    const auto pick = [&]
    {
        const auto r = [&] { return static_cast<long>(c.chance(1, 5) ? c.below(100000) : c.below(40)) * (NEG && c.chance(1, 3) ? -1 : 1); };
        const auto x = r(), y = r();
        return P3{x, y, SQ ? static_cast<long>(c.below(2)) : 0};
    };
    const auto pos = [&](const P3& p) -> std::pair<double, double>
    {
        const auto [x, y, z] = p;
        // dimer row and the atom in it
        const long r = SQ ? y : (y >= 0 ? y / 2 : -((1 - y) / 2));
        const long s = SQ ? z : ((y % 2) + 2) % 2;
        return {(static_cast<double>(x) * a + static_cast<double>(s) * cx) / 10.0, (static_cast<double>(r) * b + static_cast<double>(s) * cy) / 10.0};
    };
    const auto near = [](double p, double q) { return std::abs(p - q) <= 1e-9 * std::max(1.0, std::abs(q)); };
    const P3 p = pick(), q = c.chance(1, 8) ? p : pick();
    c.note(s3(p), " ", s3(q));
    const auto w = pos(p), v = pos(q);
    const auto g = sidb_nm_position<Lyt>(l, cl<Lyt>(p));
    REQUIRE_THAT(near(g.first, w.first) && near(g.second, w.second), "position of " << s3(p) << ": " << g.first << "," << g.second << ", not " << w.first << "," << w.second);
    const auto d = std::hypot(w.first - v.first, w.second - v.second);
    const auto d1 = sidb_nm_distance<Lyt>(l, cl<Lyt>(p), cl<Lyt>(q)), d2 = sidb_nm_distance<Lyt>(l, cl<Lyt>(q), cl<Lyt>(p));
    REQUIRE_THAT(std::abs(d1 - d) < 1e-7 * std::max(1.0, d), "distance of " << s3(p) << " and " << s3(q) << ": " << d1 << ", not " << d);
    REQUIRE_THAT(d1 == d2, "the distance is not symmetric");
    REQUIRE_EQ(d1 == 0.0, p == q, "distance of distinct positions");
    c.nontrivial(p != q);
}
template <typename Lyt> using s100 = sidb_lattice<sidb_100_lattice, Lyt>;
template <typename Lyt> using s111 = sidb_lattice<sidb_111_lattice, Lyt>;
PBT("position.100", 20000, 300000, "two different positions")
{
    switch (c.below(4))
    {
        case 0: positions<s100<cells_t<sidb_technology, offset::ucoord_t>>>(c, 3.84, 7.68, 0, 2.25); break;
        case 1: positions<s100<cells_t<sidb_technology, cube::coord_t>>>(c, 3.84, 7.68, 0, 2.25); break;
        case 2: positions<s100<cells_t<sidb_technology, siqad::coord_t>>>(c, 3.84, 7.68, 0, 2.25); break;
        default: positions<cells_t<sidb_technology, siqad::coord_t>>(c, 3.84, 7.68, 0, 2.25);
    }
}
PBT("position.111", 10000, 200000, "two different positions")
{
    switch (c.below(3))
    {
        case 0: positions<s111<cells_t<sidb_technology, offset::ucoord_t>>>(c, 6.65, 3.84, 3.3255, 1.92); break;
        case 1: positions<s111<cells_t<sidb_technology, cube::coord_t>>>(c, 6.65, 3.84, 3.3255, 1.92); break;
        default: positions<s111<cells_t<sidb_technology, siqad::coord_t>>>(c, 6.65, 3.84, 3.3255, 1.92);
    }
}
