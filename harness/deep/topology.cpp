// P21: coordinate layouts (Cartesian, hexagonal, shifted Cartesian): directions, adjacency, borders, enumeration.
#include "pbt.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

#include <algorithm>
#include <set>
#include <tuple>
#include <vector>

using namespace fiction;
using P3 = std::tuple<long, long, long>;

template <typename C>
P3 p3(const C& c)
{
    return {static_cast<long>(c.x), static_cast<long>(c.y), static_cast<long>(c.z)};
}
static std::string s3(const P3& p)
{
    return "(" + std::to_string(std::get<0>(p)) + "," + std::to_string(std::get<1>(p)) + "," + std::to_string(std::get<2>(p)) + ")";
}

// where the faces lie in the plane: neighbours of a face are those at one of the offsets `near`
struct geometry
{
    enum kind { cart, odd_row, even_row, odd_col, even_col } k;
    [[nodiscard]] std::pair<long, long> at(const P3& p) const
    {
        const auto [x, y, z] = p;
        switch (k)
        {
            case cart: return {x, y};
            case odd_row: return {2 * x + (y % 2 != 0), y};
            case even_row: return {2 * x + (y % 2 == 0), y};
            case odd_col: return {x, 2 * y + (x % 2 != 0)};
            case even_col: return {x, 2 * y + (x % 2 == 0)};
        }
        return {};
    }
    [[nodiscard]] P3 from(long a, long b, long z) const
    {
        switch (k)
        {
            case cart: return {a, b, z};
            case odd_row: { const long s = b % 2 != 0; return {(a - s) / 2, b, z}; }
            case even_row: { const long s = b % 2 == 0; return {(a - s) / 2, b, z}; }
            case odd_col: { const long s = a % 2 != 0; return {a, (b - s) / 2, z}; }
            case even_col: { const long s = a % 2 == 0; return {a, (b - s) / 2, z}; }
        }
        return {};
    }
    [[nodiscard]] std::vector<std::pair<long, long>> near() const
    {
        if (k == cart) { return {{0, -1}, {1, 0}, {0, 1}, {-1, 0}}; }
        if (k == odd_row || k == even_row) { return {{2, 0}, {-2, 0}, {1, -1}, {1, 1}, {-1, -1}, {-1, 1}}; }
        return {{0, 2}, {0, -2}, {1, -1}, {1, 1}, {-1, -1}, {-1, 1}};
    }
};

template <typename Lyt>
void run(pbt::ctx& c, geometry g, bool shifted)
{
    using C      = typename Lyt::coordinate;
    constexpr bool siqad_c = std::is_same_v<C, siqad::coord_t>;
    const long X = c.chance(1, 6) ? static_cast<long>(c.edgy<std::int32_t>(0, 1 << 20)) : c.in<long>(0, 7);
    const long Y = c.chance(1, 6) ? static_cast<long>(c.edgy<std::int32_t>(0, 1 << 20)) : c.in<long>(0, 7);
    const long Z = siqad_c ? 1 : (c.flip() ? 1 : 0);
    auto mk = [&](long x, long y, long z) { return C(x, y, z); };
    Lyt  lyt{mk(X, Y, Z)};
    if (c.chance(1, 4))
    {
        // a layout that was resized behaves as one of the new size
        lyt = Lyt{mk(c.in<long>(0, 9), c.in<long>(0, 9), siqad_c ? 1 : 0)};
        lyt.resize(mk(X, Y, Z));
        c.label("resized");
    }
    auto pos = [&](long hi) { return c.edgy<std::int64_t>(0, hi); };
    const P3 p{pos(X), pos(Y), pos(Z)};
    const auto [px, py, pz] = p;
    const C a = mk(px, py, pz);
    c.note("aspect ratio ", s3({X, Y, Z}), " at ", s3(p));
    c.nontrivial(X > 0 && Y > 0);
    auto inb = [&](const P3& q)
    {
        const auto [x, y, z] = q;
        return x >= 0 && y >= 0 && z >= 0 && x <= X && y <= Y && z <= Z;
    };
    auto expect = [&](const char* what, const C& got, const P3& want)
    {
        const P3 w = inb(want) ? want : p;
        if (got.is_dead() || p3(got) != w)
        {
            c.fail(std::string(what) + " of " + s3(p) + " is " + s3(p3(got)) + (got.is_dead() ? " (dead)" : "") + ", expected " + s3(w));
        }
    };
    REQUIRE_THAT(static_cast<long>(lyt.x()) == X && static_cast<long>(lyt.y()) == Y && static_cast<long>(lyt.z()) == Z,
                 "the layout's dimensions are those of its aspect ratio");
    REQUIRE_THAT(p3(lyt.coord(px, py, pz)) == p, "coord() creates the coordinate");
    REQUIRE_THAT(lyt.is_within_bounds(a), "coordinates up to the aspect ratio are within bounds");
    REQUIRE_THAT(!lyt.is_within_bounds(mk(X + 1, py, pz)) && !lyt.is_within_bounds(mk(px, Y + 1, pz)), "coordinates beyond are not");
    // the four cardinal and the two vertical directions
    expect("north", lyt.north(a), {px, py - 1, pz});
    expect("south", lyt.south(a), {px, py + 1, pz});
    expect("east", lyt.east(a), {px + 1, py, pz});
    expect("west", lyt.west(a), {px - 1, py, pz});
    expect("above", lyt.above(a), {px, py, pz + 1});
    expect("below", lyt.below(a), {px, py, pz - 1});
    // the diagonals follow the geometry
    {
        const auto [u, v] = g.at(p);
        auto diag = [&](const char* n, const C& got, long du, long dv)
        {
            // a position left of or above the origin is outside
            const long nu = u + du, nv = v + dv;
            const P3   q  = nu < 0 || nv < 0 ? P3{-1, -1, pz} : g.from(nu, nv, pz);
            expect(n, got, inb(q) && g.at(q) == std::make_pair(nu, nv) ? q : P3{-1, -1, pz});
        };
        diag("north-east", lyt.north_east(a), 1, -1);
        diag("south-east", lyt.south_east(a), 1, 1);
        diag("south-west", lyt.south_west(a), -1, 1);
        diag("north-west", lyt.north_west(a), -1, -1);
    }
    // adjacency
    std::set<P3> want{};
    {
        const auto [u, v] = g.at(p);
        for (auto [du, dv] : g.near())
        {
            if (u + du < 0 || v + dv < 0) { continue; }
            const P3 q = g.from(u + du, v + dv, pz);
            if (inb(q) && g.at(q) == std::make_pair(u + du, v + dv)) { want.insert(q); }
        }
    }
    std::set<P3>      got{};
    std::size_t       n = 0;
    for (const auto& q : lyt.adjacent_coordinates(a)) { got.insert(p3(q)); ++n; }
    REQUIRE_THAT(n == got.size(), "no adjacent coordinate is listed twice");
    REQUIRE_THAT(got == want, "the adjacent coordinates are exactly the neighbouring faces within bounds");
    std::size_t nf = 0;
    lyt.foreach_adjacent_coordinate(a, [&](const auto& q) { ++nf; if (!got.count(p3(q))) { c.fail("foreach_adjacent_coordinate visits another coordinate"); } });
    REQUIRE_EQ(nf, n, "foreach_adjacent_coordinate visits what adjacent_coordinates returns");
    // relations to a second coordinate, near more often than not
    P3 q{};
    switch (c.below(4))
    {
        case 0: q = {pos(X), pos(Y), pos(Z)}; break;
        case 1: q = want.empty() ? p : c.pick(want); break;
        default: q = {std::clamp<long>(px + c.in<long>(-2, 2), 0, X), std::clamp<long>(py + c.in<long>(-2, 2), 0, Y), pos(Z)}; break;
    }
    const auto [qx, qy, qz] = q;
    const C b = mk(qx, qy, qz);
    c.note("other ", s3(q));
    const bool adj = want.count(q) > 0;
    REQUIRE_EQ(lyt.is_adjacent_of(a, b), adj, "is_adjacent_of");
    REQUIRE_EQ(lyt.is_adjacent_of(b, a), adj, "adjacency is symmetric");
    const bool adjz = std::any_of(want.begin(), want.end(), [&](const P3& w) { return std::get<0>(w) == qx && std::get<1>(w) == qy && std::abs(std::get<2>(w) - qz) <= 1; });
    REQUIRE_EQ(lyt.is_adjacent_elevation_of(a, b), adjz, "is_adjacent_elevation_of ignores one layer of difference");
    REQUIRE_EQ(lyt.is_north_of(a, b), qx == px && qy == py - 1 && qz == pz, "is_north_of");
    REQUIRE_EQ(lyt.is_south_of(a, b), qx == px && qy == py + 1 && qz == pz, "is_south_of");
    REQUIRE_EQ(lyt.is_east_of(a, b), qx == px + 1 && qy == py && qz == pz, "is_east_of");
    REQUIRE_EQ(lyt.is_west_of(a, b), qx == px - 1 && qy == py && qz == pz, "is_west_of");
    REQUIRE_EQ(lyt.is_above(a, b), qx == px && qy == py && qz == pz + 1, "is_above");
    REQUIRE_EQ(lyt.is_below(a, b), qx == px && qy == py && qz == pz - 1, "is_below");
    REQUIRE_EQ(lyt.is_northwards_of(a, b), qx == px && qy < py && qz == pz, "is_northwards_of");
    REQUIRE_EQ(lyt.is_southwards_of(a, b), qx == px && qy > py && qz == pz, "is_southwards_of");
    REQUIRE_EQ(lyt.is_eastwards_of(a, b), qx > px && qy == py && qz == pz, "is_eastwards_of");
    REQUIRE_EQ(lyt.is_westwards_of(a, b), qx < px && qy == py && qz == pz, "is_westwards_of");
    // borders and layers
    REQUIRE_EQ(lyt.is_at_northern_border(a), py == 0, "northern border");
    REQUIRE_EQ(lyt.is_at_southern_border(a), py == Y, "southern border");
    REQUIRE_EQ(lyt.is_at_western_border(a), px == 0, "western border");
    REQUIRE_EQ(lyt.is_at_eastern_border(a), px == X, "eastern border");
    REQUIRE_EQ(lyt.is_at_any_border(a), px == 0 || py == 0 || px == X || py == Y, "any border");
    REQUIRE_THAT((p3(lyt.northern_border_of(a)) == P3{px, 0, pz}), "northern_border_of");
    REQUIRE_THAT((p3(lyt.southern_border_of(a)) == P3{px, Y, pz}), "southern_border_of");
    REQUIRE_THAT((p3(lyt.western_border_of(a)) == P3{0, py, pz}), "western_border_of");
    REQUIRE_THAT((p3(lyt.eastern_border_of(a)) == P3{X, py, pz}), "eastern_border_of");
    REQUIRE_EQ(lyt.is_ground_layer(a), pz == 0, "ground layer");
    REQUIRE_EQ(lyt.is_crossing_layer(a), pz > 0, "crossing layer");
    // opposite pairs: both within bounds, adjacent, and mirror images of each other
    std::set<std::set<P3>> opp{}, wopp{};
    for (const auto& [e, f] : lyt.adjacent_opposite_coordinates(a)) { opp.insert({p3(e), p3(f)}); }
    for (const auto& w : want)
    {
        const auto [u, v]   = g.at(p);
        const auto [wu, wv] = g.at(w);
        for (const auto& w2 : want)
        {
            if (g.at(w2) == std::make_pair(2 * u - wu, 2 * v - wv)) { wopp.insert({w, w2}); }
        }
    }
    REQUIRE_THAT(opp == wopp, "opposite pairs are the pairs of neighbours that mirror each other");
    (void)shifted;
}
#define TOPO(NAME, LYT, G, S)                                                                  \
    PBT(NAME, 30000, 400000, "layouts with more than one row and column")                      \
    {                                                                                          \
        run<LYT>(c, geometry{geometry::G}, S);                                                 \
    }
using tl_cart = tile_based_layout<cartesian_layout<offset::ucoord_t>>;
using hx_or   = hexagonal_layout<offset::ucoord_t, odd_row_hex>;
using hx_er   = hexagonal_layout<offset::ucoord_t, even_row_hex>;
using hx_oc   = hexagonal_layout<offset::ucoord_t, odd_column_hex>;
using hx_ec   = hexagonal_layout<offset::ucoord_t, even_column_hex>;
using sc_or   = shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>;
using sc_er   = shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>;
using sc_oc   = shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>;
using sc_ec   = shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>;
TOPO("cartesian.offset", cartesian_layout<offset::ucoord_t>, cart, false)
TOPO("cartesian.cube", cartesian_layout<cube::coord_t>, cart, false)
TOPO("cartesian.siqad", cartesian_layout<siqad::coord_t>, cart, false)
TOPO("cartesian.tiles", tl_cart, cart, false)
TOPO("hexagonal.odd_row", hx_or, odd_row, false)
TOPO("hexagonal.even_row", hx_er, even_row, false)
TOPO("hexagonal.odd_column", hx_oc, odd_col, false)
TOPO("hexagonal.even_column", hx_ec, even_col, false)
TOPO("shifted.odd_row", sc_or, odd_row, true)
TOPO("shifted.even_row", sc_er, even_row, true)
TOPO("shifted.odd_column", sc_oc, odd_col, true)
TOPO("shifted.even_column", sc_ec, even_col, true)

// offset <-> cube conversions of hexagonal layouts
template <typename Lyt>
void cubes(pbt::ctx& c)
{
    Lyt              lyt{offset::ucoord_t{5, 5, 0}};
    const auto       x = c.edgy<std::int32_t>(0, 1 << 28), y = c.edgy<std::int32_t>(0, 1 << 28);
    const offset::ucoord_t o{x, y, 0};
    c.note("offset ", x, " ", y);
    c.nontrivial(x > 0 && y > 0);
    const auto q = lyt.to_cube_coordinate(o);
    REQUIRE_THAT(static_cast<long>(q.x) + q.y + q.z == 0, "the components of a cube coordinate add up to zero");
    REQUIRE_THAT(p3(lyt.to_offset_coordinate(q)) == p3(o), "conversion to cube coordinates and back is the identity");
    const auto x2 = std::max(0, x + c.in<int>(-2, 2)), y2 = std::max(0, y + c.in<int>(-2, 2));
    const auto r  = lyt.to_cube_coordinate(offset::ucoord_t{x2, y2, 0});
    REQUIRE_EQ(q == r, x == x2 && y == y2, "different offsets have different cube coordinates");
    c.note("other ", x2, " ", y2);
    // cube distance 1 is adjacency
    const long d = (std::abs(long(q.x) - r.x) + std::abs(long(q.y) - r.y) + std::abs(long(q.z) - r.z)) / 2;
    Lyt        big{offset::ucoord_t{(1 << 29), (1 << 29), 0}};
    REQUIRE_EQ(big.is_adjacent_of(o, offset::ucoord_t{x2, y2, 0}), d == 1, "faces are adjacent when their cube distance is 1");
}
PBT("hexagonal.cube", 60000, 600000, "positions off the axes")
{
    switch (c.systematic(4))
    {
        case 0: return cubes<hx_or>(c);
        case 1: return cubes<hx_er>(c);
        case 2: return cubes<hx_oc>(c);
        default: return cubes<hx_ec>(c);
    }
}

// enumeration of all and of ground coordinates, with and without bounds
template <typename Lyt>
void enumerate(pbt::ctx& c)
{
    using C = typename Lyt::coordinate;
    const long X = c.in<long>(0, 5), Y = c.in<long>(0, 5), Z = c.in<long>(0, 1);
    const Lyt  lyt{C(X, Y, Z)};
    const bool ground = c.flip();
    const long Zr     = ground ? 0 : Z;
    std::vector<P3> all{};
    for (long z = 0; z <= Zr; ++z)
        for (long y = 0; y <= Y; ++y)
            for (long x = 0; x <= X; ++x) { all.emplace_back(x, y, z); }
    std::size_t i = 0, j = all.size();
    C           start{}, stop{};
    if (c.flip())
    {
        i     = c.below(all.size());
        start = C(std::get<0>(all[i]), std::get<1>(all[i]), std::get<2>(all[i]));
    }
    if (c.flip())
    {
        j    = i + c.below(all.size() - i);
        stop = C(std::get<0>(all[j]), std::get<1>(all[j]), std::get<2>(all[j]));
    }
    c.note("aspect ratio ", s3({X, Y, Z}), ground ? " ground" : " all", " from ", i, " to ", j, " of ", all.size());
    c.nontrivial(j - i > 1);
    const std::vector<P3> want(all.begin() + static_cast<long>(i), all.begin() + static_cast<long>(j));
    std::vector<P3>       a{}, b{};
    if (ground)
    {
        for (const auto& q : lyt.ground_coordinates(start, stop)) { a.push_back(p3(q)); }
        lyt.foreach_ground_coordinate([&](const auto& q) { b.push_back(p3(q)); }, start, stop);
    }
    else
    {
        for (const auto& q : lyt.coordinates(start, stop)) { a.push_back(p3(q)); }
        lyt.foreach_coordinate([&](const auto& q) { b.push_back(p3(q)); }, start, stop);
    }
    REQUIRE_THAT(a == want, "the range lists the coordinates from start up to but not including stop, in order");
    REQUIRE_THAT(b == want, "foreach visits the same coordinates in the same order");
    REQUIRE_EQ(static_cast<long>(lyt.area()), (X + 1) * (Y + 1), "the area counts the ground coordinates");
    // a clone is independent
    auto cl = lyt.clone();
    cl.resize(C(X + 1, Y + 2, Z));
    REQUIRE_THAT(static_cast<long>(lyt.x()) == X && static_cast<long>(lyt.y()) == Y, "resizing a clone leaves the original alone");
    REQUIRE_THAT(static_cast<long>(cl.x()) == X + 1 && static_cast<long>(cl.y()) == Y + 2, "a clone can be resized");
}
PBT("enumerate", 20000, 200000, "ranges of more than one coordinate")
{
    switch (c.systematic(6))
    {
        case 0: return enumerate<cartesian_layout<offset::ucoord_t>>(c);
        case 1: return enumerate<cartesian_layout<cube::coord_t>>(c);
        case 2: return enumerate<hx_or>(c);
        case 3: return enumerate<hx_ec>(c);
        case 4: return enumerate<sc_er>(c);
        default: return enumerate<sc_oc>(c);
    }
}
