// P27: path finding, distances
#include "lyt_common.hpp"

#include <fiction/algorithms/path_finding/a_star.hpp>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/algorithms/path_finding/k_shortest_paths.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/utils/routing_utils.hpp>

#include <cmath>
#include <limits>

using namespace fiction;
using namespace lyt;

using c_cart  = cartesian_layout<offset::ucoord_t>;
using c_cube  = cartesian_layout<cube::coord_t>;
using c_hexr  = hexagonal_layout<offset::ucoord_t, odd_row_hex>;
using c_hexc  = hexagonal_layout<offset::ucoord_t, even_column_hex>;
using c_shift = shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>;
using k_cart  = clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>;
using k_hexr  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>;

// ---------------------------------------------------------------------------------------------------- distances
template <typename Lyt>
void distances(pbt::ctx& c)
{
    using C          = coordinate<Lyt>;
    const long lo    = std::is_same_v<C, cube::coord_t> ? -(1L << 25) : 0;
    const long hi    = 1L << 25;
    const auto a     = C(c.edgy<long>(lo, hi), c.edgy<long>(lo, hi), 0);
    const auto b     = c.chance(1, 4) ? C(a.x, c.edgy<long>(lo, hi), 0) : C(c.edgy<long>(lo, hi), c.edgy<long>(lo, hi), 0);
    const Lyt  l{{1, 1}};
    const long dx = std::abs(static_cast<long>(a.x) - static_cast<long>(b.x));
    const long dy = std::abs(static_cast<long>(a.y) - static_cast<long>(b.y));
    c.note("from ", s3(p3(a)), " to ", s3(p3(b)));
    c.nontrivial(dx != 0 && dy != 0);
    c.key(pbt::mix(static_cast<std::uint64_t>(dx), static_cast<std::uint64_t>(dy)));
    REQUIRE_EQ(static_cast<long>(manhattan_distance<Lyt>(l, a, b)), dx + dy, "manhattan_distance");
    REQUIRE_EQ(static_cast<long>(manhattan_distance_functor<Lyt>()(l, a, b)), dx + dy, "manhattan_distance_functor");
    REQUIRE_EQ(static_cast<long>(squared_euclidean_distance<Lyt>(l, a, b)), dx * dx + dy * dy, "squared_euclidean_distance");
    REQUIRE_EQ(static_cast<long>(squared_euclidean_distance_functor<Lyt>()(l, a, b)), dx * dx + dy * dy, "squared_euclidean_distance_functor");
    REQUIRE_EQ(static_cast<long>(chebyshev_distance<Lyt>(l, a, b)), std::max(dx, dy), "chebyshev_distance");
    REQUIRE_EQ(static_cast<long>(chebyshev_distance_functor<Lyt>()(l, a, b)), std::max(dx, dy), "chebyshev_distance_functor");
    const bool fw = a.x <= b.x && a.y <= b.y;
    const long tw = fw ? dx + dy : static_cast<long>(std::numeric_limits<std::uint32_t>::max());
    REQUIRE_EQ(static_cast<long>(twoddwave_distance<Lyt>(l, a, b)), tw, "twoddwave_distance");
    REQUIRE_EQ(static_cast<long>(twoddwave_distance_functor<Lyt>()(l, a, b)), tw, "twoddwave_distance_functor");
    const double e = std::sqrt(static_cast<double>(dx * dx + dy * dy));
    REQUIRE_THAT(std::abs(euclidean_distance<Lyt>(l, a, b) - e) <= 1e-9 * (1 + e), "euclidean_distance");
    REQUIRE_THAT(std::abs(euclidean_distance_functor<Lyt>()(l, a, b) - e) <= 1e-9 * (1 + e), "euclidean_distance_functor");
    REQUIRE_EQ(static_cast<int>(unit_cost_functor<Lyt>()(a, b)), 1, "unit cost");
    const auto r = random_cost_functor<Lyt>()(a, b);
    REQUIRE_THAT(r >= 0 && r <= 1, "random cost");
}
PBT("distances", 4000, 300000, "both ordinates differ")
{
    switch (c.below(4))
    {
        case 0: return distances<c_cart>(c);
        case 1: return distances<c_hexr>(c);
        case 2: return distances<c_shift>(c);
        default: return distances<c_cube>(c);
    }
}

// ---------------------------------------------------------------------------------------------------- distance maps
template <typename Lyt>
void maps(pbt::ctx& c)
{
    const long X = c.below(6), Y = c.below(6);
    const long Z = c.chance(1, 3) ? 1 : 0;
    c.note("size ", X, ",", Y, ",", Z);
    const Lyt l{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}};
    const int which = static_cast<int>(c.below(3));
    std::size_t calls = 0;
    const std::function<std::uint64_t(const Lyt&, const coordinate<Lyt>&, const coordinate<Lyt>&)> fn =
        [&](const Lyt& y, const coordinate<Lyt>& s, const coordinate<Lyt>& t) -> std::uint64_t
    {
        ++calls;
        return which == 0 ? manhattan_distance<Lyt>(y, s, t) :
               which == 1 ? twoddwave_distance<Lyt>(y, s, t) :
                            pbt::mix(static_cast<std::uint64_t>(s.x * 64 + s.y), static_cast<std::uint64_t>(t.x * 64 + t.y)) % 1000;
    };
    const distance_functor<Lyt, std::uint64_t> f{fn};
    const smart_distance_cache_functor<Lyt, std::uint64_t> cache{l, fn};
    c.nontrivial(X > 0 && Y > 0 && X != Y);
    std::vector<coordinate<Lyt>> all{};
    for (long z = 0; z <= Z; ++z)
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x) { all.push_back(tl<Lyt>({x, y, z})); }
        }
    }
    const sparse_distance_map_functor<Lyt, std::uint64_t> sparse{initialize_sparse_distance_map<Lyt, std::uint64_t>(l, f)};
    const distance_map_functor<Lyt, std::uint64_t>        dense{initialize_distance_map<Lyt, std::uint64_t>(l, f)};
    for (const auto& s : all)
    {
        for (const auto& t : all)
        {
            const auto want = fn(l, s, t);
            REQUIRE_EQ(sparse(l, s, t), want, "sparse distance map " << s3(p3(s)) << s3(p3(t)));
            REQUIRE_EQ(dense(l, s, t), want, "distance map " << s3(p3(s)) << s3(p3(t)));
            const auto n = calls;
            REQUIRE_EQ(cache(l, s, t), want, "distance cache, first query " << s3(p3(s)) << s3(p3(t)));
            REQUIRE_EQ(calls, n + 1, "the first query computes");
            REQUIRE_EQ(cache(l, s, t), want, "distance cache, second query " << s3(p3(s)) << s3(p3(t)));
            REQUIRE_EQ(calls, n + 1, "the second query is answered from the cache");
        }
    }
}
PBT("distance-maps", 300, 10000, "more than one row and column, not a square")
{
    c.flip() ? maps<c_cart>(c) : maps<c_hexr>(c);
}

// ---------------------------------------------------------------------------------------------------- path finding
template <typename Lyt>
struct world
{
    Lyt                           l;
    P3                            s, t;
    bool                          crossings{};
    long                          X, Y, Z;
};
/// obstructs arbitrary positions and connections
template <typename Lyt>
void obstruct(pbt::ctx& c, Lyt& l, long X, long Y, unsigned percent)
{
    for (long y = 0; y <= Y; ++y)
    {
        for (long x = 0; x <= X; ++x)
        {
            const auto t = tl<Lyt>({x, y, 0});
            if (c.below(100) < percent)
            {
                c.note("obstruct ", x, ",", y);
                l.obstruct_coordinate(t);
            }
            for (const auto& nb : l.adjacent_coordinates(t))
            {
                if (c.below(100) < percent / 2)
                {
                    c.note("obstruct ", x, ",", y, " -> ", s3(p3(nb)));
                    l.obstruct_connection(t, nb);
                }
            }
        }
    }
}
template <typename Lyt>
void ends(pbt::ctx& c, world<Lyt>& w)
{
    const auto n = static_cast<std::uint64_t>((w.X + 1) * (w.Y + 1));
    const auto i = static_cast<long>(c.below(n)), j = static_cast<long>(c.below(n));
    w.s          = {i % (w.X + 1), i / (w.X + 1), 0};
    w.t          = {j % (w.X + 1), j / (w.X + 1), 0};
    c.note("from ", s3(w.s), " to ", s3(w.t), w.crossings ? " with crossings" : "");
}
template <typename Base>
world<obstruction_layout<Base>> plain_world(pbt::ctx& c, long max)
{
    const long X = c.below(static_cast<std::uint64_t>(max)), Y = c.below(static_cast<std::uint64_t>(max)), Z = c.chance(1, 3);
    c.note("size ", X, ",", Y, ",", Z);
    using L = obstruction_layout<Base>;
    auto make = [&]
    {
        if constexpr (is_clocked_layout_v<Base>) { return empty_layout<Base>(c, X, Y, Z); }
        else { return Base{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}}; }
    };
    world<L> w{L{make()}, {}, {}, false, X, Y, Z};
    obstruct(c, w.l, X, Y, static_cast<unsigned>(c.pick(std::vector<int>{0, 10, 25, 40})));
    w.crossings = c.chance(1, 4);
    ends(c, w);
    return w;
}
/// gates placed at random, connected by wires routed with the model of the graph
template <typename Base>
world<obstruction_layout<Base>> wired_world(pbt::ctx& c, long max)
{
    using L      = obstruction_layout<Base>;
    const long X = c.in<long>(1, max), Y = c.in<long>(1, max), Z = c.chance(4, 5);
    c.note("size ", X, ",", Y, ",", Z);
    world<L> w{L{empty_layout<Base>(c, X, Y, Z)}, {}, {}, true, X, Y, Z};
    const auto pos = [&]
    {
        return P3{static_cast<long>(c.below(static_cast<std::uint64_t>(X + 1))), static_cast<long>(c.below(static_cast<std::uint64_t>(Y + 1))), 0};
    };
    std::vector<P3> gates{};
    const auto      n = c.in<unsigned>(1, 8);
    for (unsigned i = 0; i < n; ++i)
    {
        const auto p = pos();
        const auto t = tl<L>(p);
        if (!w.l.is_empty_tile(t)) { continue; }
        gates.push_back(p);
        switch (c.below(3))
        {
            case 0:
                w.l.create_pi("", t);
                c.note("input at ", s3(p));
                break;
            case 1:
                w.l.create_po({}, "", t);
                c.note("output at ", s3(p));
                break;
            default:
                w.l.create_and({}, {}, t);
                c.note("gate at ", s3(p));
                break;
        }
        w.l.move_node(w.l.get_node(t), t, {});
    }
    const auto m = c.in<unsigned>(0, 6);
    for (unsigned i = 0; i < m && gates.size() > 1; ++i)
    {
        const auto s = c.pick(gates), t = c.pick(gates);
        if (s == t) { continue; }
        const auto                   g = graph_of(w.l, s, t, true);
        std::vector<std::vector<P3>> routes{};
        all_routes(g, s, t, 30, routes);
        if (routes.empty()) { continue; }
        const auto r   = c.pick(routes);
        auto       sig = static_cast<mockturtle::signal<L>>(tl<L>(r.front()));
        c.note("wire ", show(r));
        for (std::size_t k = 1; k + 1 < r.size(); ++k) { sig = w.l.create_buf(sig, tl<L>(r[k])); }
        w.l.connect(sig, w.l.get_node(tl<L>(r.back())));
    }
    obstruct(c, w.l, X, Y, static_cast<unsigned>(c.pick(std::vector<int>{0, 0, 10})));
    w.crossings = c.chance(3, 4);
    ends(c, w);
    return w;
}

template <typename Lyt>
void a_star_on(pbt::ctx& c, world<Lyt> w)
{
    using path   = layout_coordinate_path<Lyt>;
    const auto g = graph_of(w.l, w.s, w.t, w.crossings);
    const auto s = tl<Lyt>(w.s), t = tl<Lyt>(w.t);
    c.key(pbt::hash_str(s3(w.s) + s3(w.t)));
    const a_star_params ps{w.crossings};
    const auto unit = [](const P3&, const P3&) -> std::int64_t { return 1; };
    const auto best = cheapest(g, w.s, w.t, unit);
    c.nontrivial(best > 2 || (best < 0 && g.size() > 3));
    const auto zero = distance_functor<Lyt, std::uint64_t>{[](const Lyt&, const coordinate<Lyt>&, const coordinate<Lyt>&) -> std::uint64_t { return 0; }};
    // the default heuristic, the empty one, and an admissible one
    for (int k = 0; k < 3; ++k)
    {
        const auto p = path3(k == 0 ? a_star<path>(w.l, {s, t}, manhattan_distance_functor<Lyt, std::uint64_t>(), unit_cost_functor<Lyt, std::uint8_t>(), ps) :
                             k == 1 ? a_star<path>(w.l, {s, t}, zero, unit_cost_functor<Lyt, std::uint8_t>(), ps) :
                                      a_star<path>(w.l, {s, t}, chebyshev_distance_functor<Lyt, std::uint64_t>(), unit_cost_functor<Lyt, std::uint8_t>(), ps));
        REQUIRE_EQ(p.empty(), best < 0, "a route is found iff there is one, heuristic " << k);
        if (p.empty()) { continue; }
        REQUIRE_THAT(is_route(w.l, p, w.s, w.t, w.crossings), "not a route: " << show(p) << ", heuristic " << k);
        // the Manhattan distance overestimates where diagonal steps are possible
        if (k != 0 || is_cartesian_layout_v<Lyt>)
        {
            REQUIRE_EQ(static_cast<std::int64_t>(p.size()) - 1, best, "not a shortest route: " << show(p) << ", heuristic " << k);
        }
    }
    if (!w.crossings)
    {
        const auto p = path3(a_star<path>(w.l, {s, t}));
        REQUIRE_EQ(static_cast<std::int64_t>(p.size()) - 1, best, "not a shortest route: " << show(p) << ", default arguments");
    }
    // weighted steps
    const auto salt = c.below(1000), range = c.pick(std::vector<std::uint64_t>{2, 5, 50});
    const std::function<std::int64_t(const P3&, const P3&)> w1 = [&](const P3& a, const P3& b) -> std::int64_t
    { return 1 + static_cast<std::int64_t>(pbt::mix(salt, pbt::hash_str(s3(a) + s3(b))) % range); };
    const cost_functor<Lyt, std::uint32_t> cost{[&](const coordinate<Lyt>& a, const coordinate<Lyt>& b)
                                                { return static_cast<std::uint32_t>(w1(p3(a), p3(b))); }};
    const auto wbest = cheapest(g, w.s, w.t, w1);
    for (int k = 0; k < 2; ++k)
    {
        const auto p = path3(k == 0 ? a_star<path>(w.l, {s, t}, zero, cost, ps) :
                                      a_star<path>(w.l, {s, t}, chebyshev_distance_functor<Lyt, std::uint64_t>(), cost, ps));
        REQUIRE_EQ(p.empty(), wbest < 0, "a weighted route is found iff there is one");
        if (p.empty()) { continue; }
        REQUIRE_THAT(is_route(w.l, p, w.s, w.t, w.crossings), "not a route: " << show(p));
        std::int64_t sum = 0;
        for (std::size_t i = 0; i + 1 < p.size(); ++i) { sum += w1(p[i], p[i + 1]); }
        REQUIRE_EQ(sum, wbest, "not a cheapest route: " << show(p) << ", heuristic " << k);
    }
    // the exact distance
    const auto nocross = cheapest(graph_of(w.l, w.s, w.t, false), w.s, w.t, unit);
    REQUIRE_EQ((a_star_distance<Lyt, std::uint64_t>(w.l, s, t)), nocross < 0 ? std::numeric_limits<std::uint64_t>::max() : static_cast<std::uint64_t>(nocross), "a_star_distance");
    const auto d = a_star_distance_functor<Lyt, double>()(w.l, s, t);
    REQUIRE_THAT(nocross < 0 ? std::isinf(d) : d == static_cast<double>(nocross), "a_star_distance_functor: " << d);
}
PBT("a-star", 2500, 100000, "shortest route longer than two steps, or none although the source has successors")
{
    switch (c.below(8))
    {
        case 0: return a_star_on(c, plain_world<c_cart>(c, 8));
        case 1: return a_star_on(c, plain_world<c_hexr>(c, 8));
        case 2: return a_star_on(c, plain_world<c_hexc>(c, 8));
        case 3: return a_star_on(c, plain_world<c_shift>(c, 8));
        case 4: return a_star_on(c, plain_world<k_cart>(c, 8));
        case 5: return a_star_on(c, plain_world<k_hexr>(c, 8));
        case 6: return a_star_on(c, wired_world<cart_t>(c, 7));
        default: return a_star_on(c, wired_world<hexr_t>(c, 7));
    }
}

template <typename Lyt>
std::vector<std::tuple<P3, bool>> obstructions(const Lyt& l, long X, long Y)
{
    std::vector<std::tuple<P3, bool>> r{};
    for (long y = 0; y <= Y; ++y)
    {
        for (long x = 0; x <= X; ++x)
        {
            const auto t = tl<Lyt>({x, y, 0});
            r.emplace_back(P3{x, y, 0}, l.is_obstructed_coordinate(t));
            for (const auto& n : l.adjacent_coordinates(t)) { r.emplace_back(p3(n), l.is_obstructed_connection(t, n)); }
        }
    }
    return r;
}
template <typename Lyt>
void all_on(pbt::ctx& c, const world<Lyt>& w)
{
    using path                         = layout_coordinate_path<Lyt>;
    const auto                   g     = graph_of(w.l, w.s, w.t, w.crossings);
    std::vector<std::vector<P3>> want{};
    if (!all_routes(g, w.s, w.t, 400, want)) { throw pbt::discard{}; }
    c.nontrivial(want.size() > 2);
    c.key(pbt::hash_str(s3(w.s) + s3(w.t)) + want.size());
    const auto before = obstructions(w.l, w.X, w.Y);
    // --- all routes
    const auto s = tl<Lyt>(w.s), t = tl<Lyt>(w.t);
    const auto                   got = enumerate_all_paths<path>(w.l, {s, t}, {w.crossings});
    std::vector<std::vector<P3>> have{};
    for (const auto& p : got)
    {
        have.push_back(path3(p));
        REQUIRE_THAT(is_route(w.l, have.back(), w.s, w.t, w.crossings), "not a route: " << show(have.back()));
        REQUIRE_THAT(p.source() == s && p.target() == t && got.contains(p), "ends of a path");
    }
    std::sort(have.begin(), have.end());
    REQUIRE_THAT(std::adjacent_find(have.begin(), have.end()) == have.end(), "a route is listed twice");
    std::sort(want.begin(), want.end());
    REQUIRE_THAT(have == want, "enumerated " << have.size() << " of " << want.size() << " routes");
    // --- the k shortest
    std::vector<std::size_t> len{};
    for (const auto& p : want) { len.push_back(p.size()); }
    std::sort(len.begin(), len.end());
    const auto k = c.in<std::uint32_t>(1, 12);
    c.note("k ", k);
    const auto                   ks = yen_k_shortest_paths<path>(w.l, {s, t}, k, {{w.crossings}});
    std::vector<std::size_t>     klen{};
    std::vector<std::vector<P3>> kp{};
    for (const auto& p : ks)
    {
        kp.push_back(path3(p));
        klen.push_back(p.size());
        REQUIRE_THAT(is_route(w.l, kp.back(), w.s, w.t, w.crossings), "not a route: " << show(kp.back()));
    }
    std::sort(kp.begin(), kp.end());
    REQUIRE_THAT(std::adjacent_find(kp.begin(), kp.end()) == kp.end(), "one of the k shortest routes is listed twice");
    len.resize(std::min<std::size_t>(len.size(), k));
    REQUIRE_EQ(klen, len, "lengths of the " << k << " shortest routes");
    REQUIRE_THAT(obstructions(w.l, w.X, w.Y) == before, "path finding changed the obstructions of the layout");
}
PBT("all-and-k-shortest-paths", 2500, 100000, "more than two routes")
{
    switch (c.below(8))
    {
        case 0: return all_on(c, plain_world<c_cart>(c, 4));
        case 1: return all_on(c, plain_world<c_hexr>(c, 4));
        case 2: return all_on(c, plain_world<c_hexc>(c, 4));
        case 3: return all_on(c, plain_world<c_shift>(c, 4));
        case 4: return all_on(c, plain_world<k_cart>(c, 6));
        case 5: return all_on(c, plain_world<k_hexr>(c, 6));
        case 6: return all_on(c, wired_world<cart_t>(c, 5));
        default: return all_on(c, wired_world<hexr_t>(c, 5));
    }
}
