// vertex colouring heuristics (vendored graph-coloring library)
#include "pbt.hpp"

#include <graph-coloring/Header/coloring_algorithm.hpp>
#include <graph-coloring/Header/dsatur.hpp>
#include <graph-coloring/Header/hybrid_dsatur.hpp>
#include <graph-coloring/Header/hybrid_lmxrlf.hpp>
#include <graph-coloring/Header/lmxrlf.hpp>
#include <graph-coloring/Header/mcs.hpp>
#include <graph-coloring/Header/tabucol.hpp>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace GraphColoring;
using G = std::map<std::string, std::vector<std::string>>;

// the library's randomness comes from rand(); here it is a function of the generated case, so that failures replay
static std::uint64_t g_rand = 1;
extern "C" int rand() noexcept
{
    g_rand = pbt::splitmix(g_rand);
    return static_cast<int>(g_rand >> 33u);
}
extern "C" void srand(unsigned) noexcept {}

struct model
{
    int                           n{};
    std::vector<std::string>      name{};
    std::vector<std::set<int>>    adj{};
    std::size_t                   edges{};
};
static void link(model& m, int a, int b)
{
    if (a != b && m.adj[static_cast<std::size_t>(a)].insert(b).second)
    {
        m.adj[static_cast<std::size_t>(b)].insert(a);
        ++m.edges;
    }
}
static model blank(pbt::ctx& c, int n)
{
    model m{n};
    m.adj.resize(static_cast<std::size_t>(n));
    std::vector<int> id{};
    for (int i = 0; i < n; ++i)
    {
        id.push_back(i);
    }
    c.shuffle(id);  // the order of the names is not the order of construction
    for (int i = 0; i < n; ++i)
    {
        m.name.push_back("v" + std::to_string(id[static_cast<std::size_t>(i)]));
    }
    return m;
}
static G to_graph(pbt::ctx& c, const model& m)
{
    G g{};
    for (int i = 0; i < m.n; ++i)
    {
        std::vector<int> a(m.adj[static_cast<std::size_t>(i)].begin(), m.adj[static_cast<std::size_t>(i)].end());
        c.shuffle(a);
        auto& l = g[m.name[static_cast<std::size_t>(i)]];
        for (int x : a)
        {
            l.push_back(m.name[static_cast<std::size_t>(x)]);
        }
    }
    return g;
}
static std::string show(const G& g)
{
    std::string s{};
    for (const auto& [v, l] : g)
    {
        s += v + ":";
        for (const auto& w : l)
        {
            s += w + ",";
        }
        s += " ";
    }
    return s;
}
/// any simple undirected graph, isolated vertices and several components included
static model gen_any(pbt::ctx& c, int maxn)
{
    auto m = blank(c, 1 + static_cast<int>(c.below(static_cast<std::uint64_t>(maxn))));
    const auto dens = c.below(4);
    for (int i = 0; i < m.n; ++i)
    {
        for (int j = i + 1; j < m.n; ++j)
        {
            if (c.chance(1 + static_cast<unsigned>(dens) * 2, 8))
            {
                link(m, i, j);
            }
        }
    }
    return m;
}
/// chordal: each vertex is attached to a clique of earlier ones
static model gen_chordal(pbt::ctx& c, int maxn)
{
    auto m = blank(c, 1 + static_cast<int>(c.below(static_cast<std::uint64_t>(maxn))));
    for (int i = 1; i < m.n; ++i)
    {
        std::vector<int> clique{};
        if (c.below(6) != 0)
        {
            const int s = static_cast<int>(c.below(static_cast<std::uint64_t>(i)));
            clique.push_back(s);
            for (int x : std::set<int>{m.adj[static_cast<std::size_t>(s)]})
            {
                if (c.flip() && std::all_of(clique.begin(), clique.end(), [&](int y) { return m.adj[static_cast<std::size_t>(x)].count(y); }))
                {
                    clique.push_back(x);
                }
            }
        }
        for (int x : clique)
        {
            link(m, i, x);
        }
    }
    return m;
}
static model gen_bipartite(pbt::ctx& c, int maxn)
{
    auto             m = blank(c, 1 + static_cast<int>(c.below(static_cast<std::uint64_t>(maxn))));
    std::vector<int> side{};
    for (int i = 0; i < m.n; ++i)
    {
        side.push_back(static_cast<int>(c.below(2)));
    }
    const auto dens = 1 + static_cast<unsigned>(c.below(4));
    for (int i = 0; i < m.n; ++i)
    {
        for (int j = i + 1; j < m.n; ++j)
        {
            if (side[static_cast<std::size_t>(i)] != side[static_cast<std::size_t>(j)] && c.chance(dens, 8))
            {
                link(m, i, j);
            }
        }
    }
    return m;
}
static bool k_colourable(const model& m, int k)
{
    std::vector<int> col(static_cast<std::size_t>(m.n), -1);
    std::vector<int> ord{};
    for (int i = 0; i < m.n; ++i)
    {
        ord.push_back(i);
    }
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return m.adj[static_cast<std::size_t>(a)].size() > m.adj[static_cast<std::size_t>(b)].size(); });
    std::function<bool(int, int)> rec = [&](int p, int used) -> bool
    {
        if (p == m.n)
        {
            return true;
        }
        const int v = ord[static_cast<std::size_t>(p)];
        for (int x = 0; x < std::min(k, used + 1); ++x)
        {
            if (std::none_of(m.adj[static_cast<std::size_t>(v)].begin(), m.adj[static_cast<std::size_t>(v)].end(),
                             [&](int w) { return col[static_cast<std::size_t>(w)] == x; }))
            {
                col[static_cast<std::size_t>(v)] = x;
                if (rec(p + 1, std::max(used, x + 1)))
                {
                    return true;
                }
            }
        }
        col[static_cast<std::size_t>(v)] = -1;
        return false;
    };
    return rec(0, 0);
}
static int chromatic(const model& m)
{
    int k = 0;
    while (!k_colourable(m, k))
    {
        ++k;
    }
    return k;
}

/// a complete proper colouring, reported consistently by every accessor; returns the number of colours used
static int proper(const G& g, GraphColor& a, const std::map<std::string, int>& got)
{
    const auto nm = a.get_algorithm();
    REQUIRE_EQ(got.size(), g.size(), nm << " colours every vertex");
    std::set<int> used{};
    int           mx = 0;
    for (const auto& [v, l] : g)
    {
        const auto it = got.find(v);
        REQUIRE_THAT(it != got.end(), nm << ": vertex " << v << " has no colour");
        REQUIRE_THAT(it->second >= 0, nm << ": vertex " << v << " has colour " << it->second);
        used.insert(it->second);
        mx = std::max(mx, it->second);
        REQUIRE_EQ(a.get_color(v), it->second, nm << ": the colour of " << v);
        for (const auto& w : l)
        {
            REQUIRE_THAT(got.at(w) != it->second, nm << ": adjacent vertices " << v << " and " << w << " both have colour " << it->second);
        }
    }
    REQUIRE_EQ(a.get_num_colors(), mx + 1, nm << ": the number of colours");
    REQUIRE_THAT(a.get_coloring() == got, nm << ": the stored colouring is the returned one");
    REQUIRE_THAT(a.is_colored(), nm << ": is_colored");
    REQUIRE_THAT(a.is_valid(), nm << ": is_valid rejects a proper colouring");
    REQUIRE_EQ(a.size(), g.size(), nm << ": the size");
    REQUIRE_EQ(a.get_color("nobody"), -1, nm << ": the colour of a vertex that does not exist");
    return static_cast<int>(used.size());
}
static void nt(pbt::ctx& c, const model& m)
{
    c.nontrivial(m.edges >= 3);
    if (std::any_of(m.adj.begin(), m.adj.end(), [](const auto& s) { return s.empty(); }))
    {
        c.label("isolated vertex");
    }
}

PBT("dsatur", 20000, 200000, "at least three edges")
{
    const auto m = gen_any(c, c.thorough ? 24 : 14);
    const auto g = to_graph(c, m);
    c.note(show(g));
    nt(c, m);
    Dsatur d{g};
    REQUIRE_THAT(!d.is_colored(), "nothing is coloured before");
    const int k = proper(g, d, d.color());
    std::size_t deg = 0;
    for (const auto& a : m.adj)
    {
        deg = std::max(deg, a.size());
    }
    REQUIRE_THAT(k <= static_cast<int>(deg) + 1, "greedy colouring needs at most the maximal degree plus one colours, not " << k);
    REQUIRE_EQ(d.get_num_colors(), k, "no colour is skipped");
    proper(g, d, d.color());
}
PBT("dsatur.bipartite", 20000, 200000, "at least three edges")
{
    const auto m = gen_bipartite(c, c.thorough ? 24 : 14);
    const auto g = to_graph(c, m);
    c.note(show(g));
    nt(c, m);
    Dsatur    d{g};
    const int k = proper(g, d, d.color());
    REQUIRE_EQ(k, m.edges > 0 ? 2 : 1, "saturation degree colouring is exact for bipartite graphs");
}
PBT("mcs", 20000, 200000, "at least three edges")
{
    const auto m = gen_any(c, c.thorough ? 24 : 14);
    const auto g = to_graph(c, m);
    c.note(show(g));
    nt(c, m);
    Mcs d{g};
    const int k = proper(g, d, d.color());
    REQUIRE_EQ(d.get_num_colors(), k, "no colour is skipped");
    proper(g, d, d.color());
}
PBT("mcs.chordal", 20000, 200000, "at least three edges")
{
    const auto m = gen_chordal(c, c.thorough ? 16 : 12);
    const auto g = to_graph(c, m);
    c.note(show(g));
    nt(c, m);
    Mcs       d{g};
    const int k = proper(g, d, d.color());
    REQUIRE_EQ(k, chromatic(m), "maximum cardinality search colours chordal graphs optimally");
}
PBT("lmxrlf", 1600, 16000, "at least three edges")
{
    const auto m = gen_any(c, c.thorough ? 12 : 8);
    const auto g = to_graph(c, m);
    g_rand       = c.u64();
    c.note(show(g));
    nt(c, m);
    Lmxrlf d{g, 0, 1 + static_cast<int>(c.below(10)), 1 + static_cast<int>(c.below(2)), static_cast<int>(c.below(10))};
    const int k = proper(g, d, d.color());
    REQUIRE_EQ(d.get_num_colors(), k, "every colour is given to at least one vertex");
}
PBT("lmxrlf.partial", 800, 8000, "at least three edges")
{
    // colouring stops once the asked-for number of vertices is coloured
    const auto m = gen_any(c, 8);
    const auto g = to_graph(c, m);
    const int  k = 1 + static_cast<int>(c.below(static_cast<std::uint64_t>(m.n)));
    g_rand       = c.u64();
    c.note(show(g), " condition ", k);
    nt(c, m);
    Lmxrlf     d{g, k, 4, 1, 4};
    const auto got     = d.color();
    int        colored = 0;
    REQUIRE_EQ(got.size(), g.size(), "every vertex is listed");
    for (const auto& [v, l] : g)
    {
        REQUIRE_THAT(got.at(v) >= -1, "the colour of " << v);
        colored += got.at(v) >= 0 ? 1 : 0;
        for (const auto& w : l)
        {
            REQUIRE_THAT(got.at(v) == -1 || got.at(v) != got.at(w), "adjacent vertices " << v << " and " << w << " both have colour " << got.at(v));
        }
    }
    REQUIRE_THAT(colored >= k, "only " << colored << " of " << k << " vertices are coloured");
}
PBT("tabucol", 1600, 16000, "at least three edges and a k-colouring found")
{
    const auto m = gen_any(c, c.thorough ? 12 : 9);
    const auto g = to_graph(c, m);
    const int  k = 1 + static_cast<int>(c.below(static_cast<std::uint64_t>(m.n) + 1));
    const auto tabu = static_cast<int>(c.below(4));
    g_rand       = c.u64();
    c.note(show(g), " k=", k, " tabu ", tabu);
    Tabucol    d{g, k, tabu == 0 ? 25 : tabu - 1, 1 + static_cast<int>(c.below(30)), static_cast<int>(c.below(80))};
    const auto got = d.color();
    if (got.empty())
    {
        c.label("none found");
        REQUIRE_THAT(d.get_coloring().empty() && !d.is_valid() && !d.is_colored(), "nothing is reported when no k-colouring was found");
        return;
    }
    c.nontrivial(m.edges >= 3);
    const int used = proper(g, d, got);
    REQUIRE_THAT(used <= k, used << " colours where " << k << " were asked for");
    REQUIRE_EQ(d.get_num_colors(), used, "colours are contiguous");
}
PBT("tabucol.finds", 240, 2400, "at least three edges")
{
    // with one colour more than the maximal degree every conflict can be repaired by a single move, so that the default
    // effort must find a colouring
    const auto  m = gen_any(c, 7);
    const auto  g = to_graph(c, m);
    std::size_t k = 1;
    for (const auto& a : m.adj)
    {
        k = std::max(k, a.size() + 1);
    }
    g_rand = c.u64();
    c.note(show(g), " k=", k);
    nt(c, m);
    Tabucol d{g, static_cast<int>(k)};
    REQUIRE_THAT(proper(g, d, d.color()) <= static_cast<int>(k), "more than k colours");
}
PBT("hybrid", 48, 800, "at least three edges")
{
    const auto m = gen_any(c, 6);
    const auto g = to_graph(c, m);
    g_rand       = c.u64();
    c.note(show(g));
    nt(c, m);
    if (c.flip())
    {
        HybridDsatur d{g};
        const int    k = proper(g, d, d.color());
        Dsatur       p{g};
        p.color();
        REQUIRE_THAT(k <= p.get_num_colors(), "the hybrid is never worse than its first phase");
    }
    else
    {
        HybridLmxrlf d{g};
        proper(g, d, d.color());
    }
}
PBT("validity", 40000, 400000, "a complete colouring of a graph with at least three edges")
{
    // is_valid, is_colored, get_num_colors and get_color of an arbitrary colouring
    const auto                 m = gen_any(c, 7);
    const auto                 g = to_graph(c, m);
    std::map<std::string, int> col{};
    const auto                 kind = c.below(4);
    const int                  k    = 1 + static_cast<int>(c.below(5));
    for (const auto& n : m.name)
    {
        if (kind == 0 && c.below(6) == 0)
        {
            continue;  // vertex missing
        }
        col[n] = kind == 1 && c.below(5) == 0 ? -1 : static_cast<int>(c.below(static_cast<std::uint64_t>(k)));
    }
    if (kind == 3 && c.below(4) == 0)
    {
        col["stranger"] = 0;
    }
    Tabucol d{g, 3};
    d.set_coloring(col);
    c.note(show(g), " coloured ", pbt::show(col));
    bool all = !col.empty(), ok = !col.empty() && col.size() == g.size();
    int  mx = 0;
    for (const auto& [n, x] : col)
    {
        all = all && x != -1;
        mx  = std::max(mx, x);
    }
    bool isolated_uncoloured = false;
    for (const auto& [v, l] : g)
    {
        if (col.count(v) == 0)
        {
            ok = false;
            continue;
        }
        if (col.at(v) == -1)
        {
            isolated_uncoloured |= l.empty();
            ok = ok && l.empty();
        }
        for (const auto& w : l)
        {
            ok = ok && (col.count(w) == 0 || col.at(v) != col.at(w));
        }
    }
    c.nontrivial(all && m.edges >= 3 && col.size() == g.size());
    if (ok && all)
    {
        c.label("valid");
    }
    REQUIRE_EQ(d.is_colored(), all, "is_colored");
    REQUIRE_EQ(d.get_num_colors(), mx + 1, "the number of colours");
    for (const auto& n : m.name)
    {
        REQUIRE_EQ(d.get_color(n), col.count(n) ? col.at(n) : -1, "the colour of " << n);
    }
    if (!isolated_uncoloured)
    {
        REQUIRE_EQ(d.is_valid(), ok, "is_valid");
    }
    // contiguous renaming keeps the partition
    const auto r = d.make_colors_contiguous(col);
    std::map<int, int> fw{}, bw{};
    REQUIRE_EQ(r.size(), col.size(), "renaming keeps the vertices");
    for (const auto& [n, x] : col)
    {
        REQUIRE_THAT(fw.emplace(x, r.at(n)).first->second == r.at(n) && bw.emplace(r.at(n), x).first->second == x, "renaming colours is one to one");
    }
    int i = 0;
    for (const auto& [x, y] : bw)
    {
        REQUIRE_EQ(x, i++, "renamed colours are contiguous");
    }
}
PBT("modify", 10000, 100000, "an edge was added between coloured vertices")
{
    // a colouring is judged against the graph as it is now
    auto m = gen_any(c, 8);
    auto g = to_graph(c, m);
    std::unique_ptr<GraphColor> a{};
    const bool mcs = c.flip();
    if (mcs)
    {
        a = std::make_unique<Mcs>(g);
    }
    else
    {
        a = std::make_unique<Dsatur>(g);
    }
    proper(g, *a, a->color());
    for (int step = 0; step < 4; ++step)
    {
        if (c.below(4) == 0)
        {
            const std::string nn = "w" + std::to_string(step);
            a->modify_graph(nn, {});
            g[nn] = {};
            REQUIRE_THAT(!a->is_valid(), "a graph with an unknown vertex has no valid colouring");
        }
        else
        {
            const auto u = c.pick(m.name);
            const auto v = c.pick(m.name);
            if (u == v || std::count(g[u].begin(), g[u].end(), v))
            {
                continue;
            }
            g[u].push_back(v);
            g[v].push_back(u);
            a->modify_graph(u, g[u]);
            a->modify_graph(v, g[v]);
            c.nontrivial();
            REQUIRE_EQ(a->is_valid(), a->get_color(u) != a->get_color(v), "validity after connecting " << u << " and " << v);
        }
        REQUIRE_EQ(a->size(), g.size(), "the size");
        proper(g, *a, a->color());
    }
    c.note(show(g));
}
PBT("print", 2000, 20000, "at least two vertices")
{
    const auto m = gen_any(c, 6);
    const auto g = to_graph(c, m);
    Dsatur     d{g};
    const auto col = d.color();
    std::ostringstream os{};
    auto*              old = std::cout.rdbuf(os.rdbuf());
    d.print_chromatic();
    d.print_coloring();
    std::cout.rdbuf(old);
    std::ostringstream want{};
    want << "DSATUR Chromatic Number: " << d.get_num_colors() << "\n----------DSATUR Colorings----------\n";
    for (const auto& [v, x] : col)
    {
        want << v << " " << x << "\n";
    }
    c.note(pbt::show(col));
    c.nontrivial(m.n >= 2);
    REQUIRE_EQ(os.str(), want.str(), "the printed colouring");
}
PBT("empty", 8, 8, "always")
{
    c.nontrivial();
    const G g{};
    std::vector<std::unique_ptr<GraphColor>> all{};
    all.push_back(std::make_unique<Dsatur>(g));
    all.push_back(std::make_unique<Mcs>(g));
    all.push_back(std::make_unique<Lmxrlf>(g));
    all.push_back(std::make_unique<Tabucol>(g, 3));
    all.push_back(std::make_unique<HybridDsatur>(g));
    all.push_back(std::make_unique<HybridLmxrlf>(g));
    for (auto& a : all)
    {
        c.note(a->get_algorithm());
        REQUIRE_THAT(a->color().empty() && a->get_coloring().empty() && !a->is_colored() && a->size() == 0, a->get_algorithm() << " of the empty graph");
    }
}
