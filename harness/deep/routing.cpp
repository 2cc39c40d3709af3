// P28: multi-path routing: intersection graphs, colourings, colour routing, routing objectives
#include "lyt_common.hpp"

#include <fiction/algorithms/graph/generate_edge_intersection_graph.hpp>
#include <fiction/algorithms/graph/graph_coloring.hpp>
#include <fiction/algorithms/physical_design/color_routing.hpp>
#include <fiction/utils/routing_utils.hpp>

#include <optional>

using namespace fiction;
using namespace lyt;

using route = std::vector<P3>;
using conn  = std::pair<P3, P3>;

template <typename Lyt>
struct board
{
    Lyt               l;
    long              X, Y, Z;
    std::vector<P3>   gates{};
    std::vector<conn> obj{};
    bool              crossings{};
};
template <typename Lyt>
void lay(Lyt& l, const route& r)
{
    auto sig = static_cast<mockturtle::signal<Lyt>>(tl<Lyt>(r.front()));
    for (std::size_t k = 1; k + 1 < r.size(); ++k) { sig = l.create_buf(sig, tl<Lyt>(r[k])); }
    l.connect(sig, l.get_node(tl<Lyt>(r.back())));
}
/// a connection from something that is not an output to something else that is not an input
template <typename Lyt>
bool sensible(const Lyt& l, const P3& s, const P3& t)
{
    return s != t && !l.is_po_tile(tl<Lyt>(s)) && !l.is_pi_tile(tl<Lyt>(t));
}
/// two gates; on feed-forward schemes mostly in the order of the information flow
template <typename Lyt>
conn ends(pbt::ctx& c, const board<Lyt>& b)
{
    auto s = c.pick(b.gates), t = c.pick(b.gates);
    if (c.chance(4, 5) && std::pair(std::get<0>(s) + std::get<1>(s), s) > std::pair(std::get<0>(t) + std::get<1>(t), t)) { std::swap(s, t); }
    return {s, t};
}
/// gates on random tiles and some wires between them
template <typename Lyt>
board<Lyt> make_board(pbt::ctx& c, long max, unsigned wires)
{
    const long X = max - std::min(c.in<long>(0, max - 1), c.in<long>(0, max - 1)), Y = max - std::min(c.in<long>(0, max - 1), c.in<long>(0, max - 1)), Z = c.chance(4, 5);
    c.note("size ", X, ",", Y, ",", Z);
    board<Lyt> b{c.flip() ? Lyt{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *get_clocking_scheme<Lyt>("2DDWAVE")} : empty_layout<Lyt>(c, X, Y, Z), X, Y, Z};
    const auto n = c.in<unsigned>(2, 12);
    for (unsigned i = 0; i < n; ++i)
    {
        const P3   p{c.in<long>(0, X), c.in<long>(0, Y), 0};
        const auto t = tl<Lyt>(p);
        if (!b.l.is_empty_tile(t)) { continue; }
        b.gates.push_back(p);
        const bool edge = std::get<0>(p) == 0 || std::get<1>(p) == 0;
        switch (edge && c.flip() ? 0 : c.below(4))
        {
            case 0: b.l.create_pi("", t); c.note("input at ", s3(p)); break;
            case 1: b.l.create_po({}, "", t); c.note("output at ", s3(p)); break;
            case 2: b.l.create_not({}, t); c.note("inverter at ", s3(p)); break;
            default: b.l.create_and({}, {}, t); c.note("gate at ", s3(p)); break;
        }
        b.l.move_node(b.l.get_node(t), t, {});
    }
    for (unsigned i = 0; i < wires && b.gates.size() > 1; ++i)
    {
        const auto [s, t] = ends(c, b);
        if (!sensible(b.l, s, t)) { continue; }
        std::vector<route> rs{};
        all_routes(graph_of(obstruction_layout<Lyt>{b.l}, s, t, b.Z > 0), s, t, 30, rs);
        if (rs.empty()) { continue; }
        const auto r = c.pick(rs);
        c.note("wire ", show(r));
        lay(b.l, r);
    }
    return b;
}
template <typename Lyt>
void objectives(pbt::ctx& c, board<Lyt>& b, unsigned most)
{
    std::set<conn> seen{};
    const auto     m = c.in<unsigned>(0, most);
    for (unsigned i = 0; i < m && b.gates.size() > 1; ++i)
    {
        const conn o = ends(c, b);
        if (!sensible(b.l, o.first, o.second) || !seen.insert(o).second) { continue; }
        c.note("objective ", s3(o.first), " to ", s3(o.second));
        b.obj.push_back(o);
    }
}
/// two routes of different objectives can be laid together
static bool compatible(const route& a, const route& b, bool crossings)
{
    if (a.front() == b.front() && a.back() == b.back()) { return false; }
    if (!crossings)
    {
        for (std::size_t i = 1; i + 1 < a.size(); ++i)
        {
            if (std::find(b.begin() + 1, b.end() - 1, a[i]) != b.end() - 1) { return false; }
        }
        return true;
    }
    for (std::size_t i = 0; i + 1 < a.size(); ++i)
    {
        for (std::size_t j = 0; j + 1 < b.size(); ++j)
        {
            if (a[i] == b[j] && a[i + 1] == b[j + 1]) { return false; }
        }
    }
    // one of them passes over the other: nothing else can be there
    for (std::size_t i = 1; i + 1 < a.size(); ++i)
    {
        for (std::size_t j = 1; j + 1 < b.size(); ++j)
        {
            if (a[i] == b[j] && std::get<2>(a[i]) != 0) { return false; }
        }
    }
    return true;
}
template <typename Lyt>
bool routes_of(const board<Lyt>& b, std::size_t limit, std::vector<std::vector<route>>& out)
{
    const obstruction_layout<Lyt> ol{b.l};
    for (const auto& [s, t] : b.obj)
    {
        out.emplace_back();
        if (!all_routes(graph_of(ol, s, t, b.crossings), s, t, limit, out.back())) { return false; }
    }
    return true;
}
template <typename Lyt>
std::vector<routing_objective<Lyt>> objs(const board<Lyt>& b)
{
    std::vector<routing_objective<Lyt>> r{};
    for (const auto& [s, t] : b.obj) { r.push_back({tl<Lyt>(s), tl<Lyt>(t)}); }
    return r;
}

// ---------------------------------------------------------------------------------------------------- the graph
template <typename Lyt>
void graph(pbt::ctx& c)
{
    auto b      = make_board<Lyt>(c, 5, c.below(3));
    b.crossings = b.Z > 0 && c.flip();
    objectives(c, b, 6);
    std::vector<std::vector<route>> rs{};
    if (!routes_of(b, 40, rs)) { throw pbt::discard{}; }
    std::optional<std::uint32_t> limit{};
    if (c.flip()) { limit = c.in<std::uint32_t>(1, 6); }
    c.note(b.crossings ? "crossings" : "no crossings", limit ? ", limit " + std::to_string(*limit) : "");
    generate_edge_intersection_graph_stats st{};
    const auto g = generate_edge_intersection_graph<Lyt>(b.l, objs(b), {b.crossings, limit}, &st);
    std::map<std::size_t, route> v{};
    for (auto it = g.begin_vertices(); it != g.end_vertices(); ++it) { v[it->first] = path3(it->second); }
    // --- vertices: the routes of every objective
    std::size_t unroutable = 0, total = 0;
    std::vector<std::size_t> sizes{};
    for (std::size_t i = 0; i < rs.size(); ++i)
    {
        const auto want = limit ? std::min<std::size_t>(*limit, rs[i].size()) : rs[i].size();
        unroutable += want == 0;
        total += want;
        if (want != 0) { sizes.push_back(want); }
        std::vector<route> mine{};
        for (const auto& [id, r] : v)
        {
            if (r.front() == b.obj[i].first && r.back() == b.obj[i].second) { mine.push_back(r); }
        }
        std::sort(mine.begin(), mine.end());
        REQUIRE_THAT(std::adjacent_find(mine.begin(), mine.end()) == mine.end(), "a route occurs twice");
        REQUIRE_EQ(mine.size(), want, "routes of an objective");
        for (const auto& r : mine) { REQUIRE_THAT(std::find(rs[i].begin(), rs[i].end(), r) != rs[i].end(), "not a route: " << show(r)); }
    }
    REQUIRE_EQ(v.size(), total, "number of vertices");
    REQUIRE_EQ(st.num_vertices, total, "reported number of vertices");
    REQUIRE_EQ(st.number_of_unroutable_objectives, unroutable, "number of unroutable objectives");
    REQUIRE_EQ(st.cliques.size(), sizes.size(), "one clique per routable objective");
    for (std::size_t i = 0; i < sizes.size(); ++i)
    {
        REQUIRE_EQ(st.cliques[i].size(), sizes[i], "size of clique");
        for (const auto x : st.cliques[i])
        {
            REQUIRE_THAT(v.contains(x) && v[x].front() == v[st.cliques[i][0]].front() && v[x].back() == v[st.cliques[i][0]].back(), "a clique consists of the routes of one objective");
        }
    }
    // --- edges: the pairs that cannot be laid together
    std::size_t edges = 0;
    for (const auto& [i, p] : v)
    {
        for (const auto& [j, q] : v)
        {
            if (j <= i) { continue; }
            const bool have = g.find_edge({i, j}) != g.end_edges();
            bool want       = !compatible(p, q, b.crossings);
            edges += have;
            REQUIRE_EQ(have, want, "edge between " << show(p) << " and " << show(q));
        }
    }
    REQUIRE_EQ(g.size_edges(), edges, "number of edges");
    REQUIRE_EQ(st.num_edges, edges, "reported number of edges");
    c.nontrivial(sizes.size() > 1 && edges > 0 && edges < total * (total - 1) / 2);
    c.key(total * 1000 + edges);
}
PBT("intersection-graph", 20000, 300000, "two routable objectives or more, some of whose routes conflict")
{
    c.chance(2, 3) ? graph<cart_t>(c) : graph<hexr_t>(c);
}

// ---------------------------------------------------------------------------------------------------- colourings
PBT("vertex-coloring", 6000, 100000, "a graph with an edge and chromatic number below the number of vertices")
{
    using G      = undirected_graph<std::size_t, char, undirected_pair<std::size_t>, std::size_t>;
    const auto n = c.in<std::size_t>(0, 8);
    G          g{};
    std::vector<std::size_t> ids{};
    const auto base = c.below(3) * 7;
    for (std::size_t i = 0; i < n; ++i)
    {
        ids.push_back(base + i * 3);
        g.insert_vertex(ids.back(), 'v');
    }
    std::vector<std::vector<bool>> e(n, std::vector<bool>(n));
    const auto pct = c.pick(std::vector<unsigned>{0, 20, 50, 80, 100});
    std::size_t m = 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        for (std::size_t j = i + 1; j < n; ++j)
        {
            if (c.below(100) < pct)
            {
                e[i][j] = e[j][i] = true;
                g.insert_edge(ids[i], ids[j], m++);
            }
        }
    }
    c.note("vertices ", n, " edges ", m);
    // chromatic number by search
    std::size_t chi = 0;
    std::vector<std::size_t> col(n);
    const std::function<bool(std::size_t, std::size_t)> fits = [&](std::size_t i, std::size_t k) -> bool
    {
        if (i == n) { return true; }
        for (std::size_t x = 0; x < std::min(k, i + 1); ++x)
        {
            bool ok = true;
            for (std::size_t j = 0; j < i; ++j) { ok = ok && !(e[i][j] && col[j] == x); }
            if (!ok) { continue; }
            col[i] = x;
            if (fits(i + 1, k)) { return true; }
        }
        return false;
    };
    while (!fits(0, chi)) { ++chi; }
    c.nontrivial(m > 0 && chi < n);
    determine_vertex_coloring_params<G> ps{};
    ps.engine = c.pick(std::vector<graph_coloring_engine>{graph_coloring_engine::MCS, graph_coloring_engine::DSATUR, graph_coloring_engine::LMXRLF, graph_coloring_engine::TABUCOL, graph_coloring_engine::SAT, graph_coloring_engine::SAT, graph_coloring_engine::SAT});
    ps.heuristic_params.k_color_value = n;
    ps.verify_coloring_after_computation = c.flip();
    ps.sat_params.sat_engine = c.pick(std::vector<bill::solvers>{bill::solvers::ghack, bill::solvers::glucose_41});
    ps.sat_params.sat_search_tactic = c.pick(std::vector<graph_coloring_sat_search_tactic>{graph_coloring_sat_search_tactic::LINEARLY_ASCENDING, graph_coloring_sat_search_tactic::LINEARLY_DESCENDING, graph_coloring_sat_search_tactic::BINARY_SEARCH});
    const bool sat = ps.engine == graph_coloring_engine::SAT;
    // known cliques: greedy
    if (c.flip())
    {
        std::vector<bool> used(n);
        for (std::size_t i = 0; i < n; ++i)
        {
            if (used[i]) { continue; }
            std::vector<std::size_t> q{i};
            used[i] = true;
            for (std::size_t j = i + 1; j < n; ++j)
            {
                bool ok = !used[j] && c.chance(3, 4);
                for (const auto x : q) { ok = ok && e[x][j]; }
                if (ok)
                {
                    q.push_back(j);
                    used[j] = true;
                }
            }
            std::vector<std::size_t> k{};
            for (const auto x : q) { k.push_back(ids[x]); }
            ps.sat_params.cliques.push_back(k);
        }
        ps.sat_params.clique_size_color_frequency = c.chance(1, 3);
    }
    c.note("engine ", static_cast<int>(ps.engine), " tactic ", static_cast<int>(ps.sat_params.sat_search_tactic), " cliques ", ps.sat_params.cliques.size(), ps.sat_params.clique_size_color_frequency ? " with frequency" : "");
    determine_vertex_coloring_stats<> st{};
    const auto vc = determine_vertex_coloring(g, ps, &st);
    if (ps.engine == graph_coloring_engine::TABUCOL && vc.empty()) { return; }  // gave up
    REQUIRE_EQ(vc.size(), n, "every vertex has a colour");
    std::map<std::size_t, std::size_t> freq{};
    for (std::size_t i = 0; i < n; ++i)
    {
        freq[vc.at(ids[i])]++;
        for (std::size_t j = 0; j < i; ++j) { REQUIRE_THAT(!e[i][j] || vc.at(ids[i]) != vc.at(ids[j]), "adjacent vertices have different colours"); }
    }
    if (ps.verify_coloring_after_computation) { REQUIRE_THAT(st.coloring_verified.has_value() && *st.coloring_verified, "a valid colouring is verified"); }
    else { REQUIRE_THAT(!st.coloring_verified.has_value(), "nothing verified"); }
    if (ps.engine != graph_coloring_engine::TABUCOL) { REQUIRE_EQ(st.chromatic_number, n == 0 ? st.chromatic_number : freq.size(), "reported number of colours"); }
    if (sat && !ps.sat_params.clique_size_color_frequency) { REQUIRE_EQ(freq.size(), chi, "SAT-based colouring is minimal"); }
    if (n != 0)
    {
        std::size_t most = 0;
        for (const auto& [x, k] : freq) { most = std::max(most, k); }
        REQUIRE_EQ(st.color_frequency, most, "frequency of the most frequent colour");
        REQUIRE_EQ(freq[st.most_frequent_color], most, "most frequent colour");
    }
}

// ---------------------------------------------------------------------------------------------------- colour routing
/// what a layout holds: function, position, children of every node
template <typename Lyt>
std::map<P3, std::pair<std::string, std::vector<P3>>> contents(const Lyt& l)
{
    std::map<P3, std::pair<std::string, std::vector<P3>>> r{};
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        auto& x = r[p3(l.get_tile(n))];
        x.first = kitty::to_hex(l.node_function(n)) + (l.is_pi(n) ? "i" : "") + (l.is_po(n) ? "o" : "");
        l.foreach_fanin(n, [&](const auto& f) { x.second.push_back(p3(static_cast<tile<Lyt>>(f))); });
    });
    return r;
}
template <typename Lyt>
void colour(pbt::ctx& c)
{
    auto b      = make_board<Lyt>(c, 5, c.below(2));
    b.crossings = b.Z > 0 && c.flip();
    objectives(c, b, 6);
    std::vector<std::vector<route>> rs{};
    if (!routes_of(b, 12, rs)) { throw pbt::discard{}; }
    color_routing_params ps{};
    ps.conduct_partial_routing = c.flip();
    ps.crossings               = b.crossings;
    if (c.chance(1, 3)) { ps.path_limit = c.in<std::uint32_t>(1, 6); }
    ps.engine      = c.pick(std::vector<graph_coloring_engine>{graph_coloring_engine::SAT, graph_coloring_engine::SAT, graph_coloring_engine::MCS, graph_coloring_engine::DSATUR, graph_coloring_engine::LMXRLF});
    ps.partial_sat = c.chance(1, 4);
    c.note(b.crossings ? "crossings" : "no crossings", ps.path_limit ? ", limit " + std::to_string(*ps.path_limit) : "", ps.conduct_partial_routing ? ", partial" : "", ", engine ", static_cast<int>(ps.engine));
    // is there a way to lay all of them?
    std::vector<const route*> sel{};
    const std::function<bool(std::size_t)> all = [&](std::size_t i) -> bool
    {
        if (i == rs.size()) { return true; }
        for (const auto& r : rs[i])
        {
            bool ok = true;
            for (const auto* q : sel) { ok = ok && compatible(r, *q, b.crossings); }
            if (!ok) { continue; }
            sel.push_back(&r);
            const bool done = all(i + 1);
            sel.pop_back();
            if (done) { return true; }
        }
        return false;
    };
    const bool feasible = all(0);
    c.nontrivial(b.obj.size() > 1);
    c.label(feasible ? "feasible" : "infeasible");
    c.key(b.obj.size() * 64 + rs.empty());
    const auto before = contents(b.l);
    color_routing_stats st{};
    const bool ok = color_routing(b.l, objs(b), ps, &st);
    const auto after = contents(b.l);
    if (!ok)
    {
        REQUIRE_THAT(!ps.conduct_partial_routing, "partial routing succeeds");
        REQUIRE_THAT(after == before, "a failed routing leaves the layout alone");
        REQUIRE_THAT(!(feasible && ps.engine == graph_coloring_engine::SAT && !ps.partial_sat && !ps.path_limit), "all objectives can be routed together, but the routing failed");
        return;
    }
    REQUIRE_THAT(ps.conduct_partial_routing || feasible, "the objectives cannot be routed together, yet the routing succeeded");
    if (!ps.conduct_partial_routing) { REQUIRE_EQ(st.number_of_unsatisfied_objectives, 0u, "a complete routing satisfies all objectives"); }
    if (feasible && ps.engine == graph_coloring_engine::SAT && !ps.partial_sat && !ps.path_limit)
    {
        REQUIRE_EQ(st.number_of_unsatisfied_objectives, 0u, "all objectives can be routed together");
    }
    // --- what was there is still there; what is new are wires
    for (const auto& [p, x] : before)
    {
        REQUIRE_THAT(after.contains(p) && after.at(p).first == x.first, "the routing changed " << s3(p));
        REQUIRE_THAT(after.at(p).second.size() >= x.second.size() && std::equal(x.second.begin(), x.second.end(), after.at(p).second.begin()), "the routing disconnected " << s3(p));
    }
    std::map<P3, int> uses{};
    std::set<conn>    got{};
    for (const auto& [p, x] : after)
    {
        if (!before.contains(p))
        {
            REQUIRE_THAT(x.first == "2" && x.second.size() == 1, "only wires are created: " << s3(p));
            continue;
        }
        const auto old = before.at(p).second.size();
        for (std::size_t i = old; i < x.second.size(); ++i)
        {
            auto to = p, from = x.second[i];
            for (;;)
            {
                REQUIRE_THAT(after.contains(from), "a connection from nowhere: " << s3(from));
                bool near = false;
                for (const auto& nb : neighbours(b.l, from)) { near |= ground(nb) == ground(to); }
                REQUIRE_THAT(near, "a connection that information cannot flow along: " << s3(from) << " to " << s3(to));
                if (before.contains(from)) { break; }
                uses[from]++;
                to   = from;
                from = after.at(from).second.front();
            }
            REQUIRE_THAT(got.insert({from, p}).second, "routed twice: " << s3(from) << " to " << s3(p));
            REQUIRE_THAT(std::find(b.obj.begin(), b.obj.end(), conn{from, p}) != b.obj.end(), "not an objective: " << s3(from) << " to " << s3(p));
        }
    }
    for (const auto& [p, x] : after)
    {
        if (!before.contains(p)) { REQUIRE_EQ(uses[p], 1, "a wire that belongs to one connection " << s3(p)); }
    }
    REQUIRE_EQ(got.size(), b.obj.size() - st.number_of_unsatisfied_objectives, "number of satisfied objectives");
}
PBT("color-routing", 8000, 150000, "two objectives or more")
{
    c.chance(2, 3) ? colour<cart_t>(c) : colour<hexr_t>(c);
}

// ---------------------------------------------------------------------------------------------------- objectives
template <typename Lyt>
bool link(const Lyt& l, const mockturtle::node<Lyt>& n, const std::map<P3, int>& outs)
{
    return l.is_buf(n) && !l.is_pi(n) && !l.is_po(n) && outs.at(p3(l.get_tile(n))) < 2;
}
/// the connections between gates, and the gates that depend on an input
template <typename Lyt>
std::pair<std::multiset<conn>, std::multiset<conn>> connections(const Lyt& l)
{
    const auto        all = contents(l);
    std::map<P3, int> outs{};
    for (const auto& [p, x] : all)
    {
        outs[p];
        for (const auto& f : x.second) { outs[f]++; }
    }
    std::multiset<conn> r{}, fed{};
    std::set<P3>        live{};
    const auto trace = [&](P3 from)
    {
        while (all.contains(from) && link(l, l.get_node(tl<Lyt>(from)), outs) && all.at(from).second.size() == 1) { from = all.at(from).second[0]; }
        return from;
    };
    for (const auto& [p, x] : all)
    {
        if (link(l, l.get_node(tl<Lyt>(p)), outs)) { continue; }
        for (const auto& f : x.second) { r.insert({trace(f), p}); }
    }
    l.foreach_pi([&](const auto& n) { live.insert(p3(l.get_tile(n))); });
    for (std::size_t k = 0; k <= r.size(); ++k)
    {
        for (const auto& [s, t] : r)
        {
            if (live.contains(s)) { live.insert(t); }
        }
    }
    for (const auto& o : r)
    {
        if (live.contains(o.first)) { fed.insert(o); }
    }
    return {r, fed};
}
template <typename Lyt>
void extract(pbt::ctx& c)
{
    auto b = make_board<Lyt>(c, 5, 3 + c.below(7));
    // fan-outs: wires that feed more than one
    if (c.flip() && b.gates.size() > 1)
    {
        const P3   p{c.in<long>(0, b.X), c.in<long>(0, b.Y), 0};
        const auto t = tl<Lyt>(p);
        if (b.l.is_empty_tile(t))
        {
            b.l.create_buf({}, t);
            b.l.move_node(b.l.get_node(t), t, {});
            std::vector<std::pair<P3, P3>> todo{{c.pick(b.gates), p}};
            for (int i = 0; i < 3; ++i) { todo.emplace_back(p, c.pick(b.gates)); }
            for (const auto& [x, y] : todo)
            {
                if (!sensible(b.l, x, y)) { continue; }
                std::vector<route> rs{};
                all_routes(graph_of(obstruction_layout<Lyt>{b.l}, x, y, b.Z > 0), x, y, 20, rs);
                if (rs.empty()) { continue; }
                const auto r = c.pick(rs);
                c.note("fan-out wire ", show(r));
                lay(b.l, r);
            }
        }
    }
    // loops through gates are no layouts of functions
    const auto [r, fed] = connections(b.l);
    bool odd = false;
    for (const auto& o : r) { odd |= o.first == o.second; }
    if (odd) { throw pbt::discard{}; }
    c.nontrivial(fed.size() > 1);
    c.key(fed.size() * 1000 + b.gates.size());
    std::multiset<conn> got{};
    for (const auto& o : extract_routing_objectives(b.l)) { got.insert({p3(o.source), p3(o.target)}); }
    std::string diff{};
    for (const auto& o : got) { diff += " have " + s3(o.first) + s3(o.second); }
    for (const auto& o : fed) { diff += " want " + s3(o.first) + s3(o.second); }
    REQUIRE_THAT(got == fed, "routing objectives:" << diff);
    // --- clearing
    const auto before = contents(b.l);
    auto       keep   = before;
    {
        std::map<P3, int> outs{};
        for (const auto& [p, x] : before)
        {
            outs[p];
            for (const auto& f : x.second) { outs[f]++; }
        }
        for (auto it = keep.begin(); it != keep.end();)
        {
            if (link(b.l, b.l.get_node(tl<Lyt>(it->first)), outs)) { it = keep.erase(it); }
            else
            {
                it->second.second.clear();
                ++it;
            }
        }
    }
    clear_routing(b.l);
    const auto after = contents(b.l);
    REQUIRE_EQ(after.size(), keep.size(), "clearing the routing removes the wires and nothing else");
    REQUIRE_THAT(after == keep, "clearing the routing keeps the gates, inputs, outputs and fan-outs, without connections");
}
PBT("routing-objectives", 20000, 300000, "two connections or more that depend on inputs")
{
    c.chance(2, 3) ? extract<cart_t>(c) : extract<hexr_t>(c);
}
