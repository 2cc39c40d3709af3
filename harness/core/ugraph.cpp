// the undirected graph container against a model, and its search iterators (vendored undirected_graph library)
#include "pbt.hpp"

#include <graph_search_iterator.h>
#include <undirected_graph.h>
#include <undirected_pair.h>

#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <queue>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

using pr = undirected_pair<std::uint64_t>;
using graph = undirected_graph<std::uint64_t, std::string, pr, int>;

using E = std::pair<std::uint64_t, std::uint64_t>;
static E norm(std::uint64_t a, std::uint64_t b)
{
    return {std::min(a, b), std::max(a, b)};
}
struct model
{
    std::map<std::uint64_t, std::string> v{};
    std::map<E, int>                     e{};
};
static std::multiset<std::uint64_t> neighbours(const model& m, std::uint64_t x)
{
    std::multiset<std::uint64_t> r{};
    for (const auto& [k, d] : m.e)
    {
        if (k.first == x)
        {
            r.insert(k.second);
        }
        else if (k.second == x)
        {
            r.insert(k.first);
        }
    }
    return r;
}
static void same(const graph& g, const model& m, std::uint64_t ids)
{
    REQUIRE_EQ(g.size_vertices(), m.v.size(), "the number of vertices");
    REQUIRE_EQ(g.size_edges(), m.e.size(), "the number of edges");
    REQUIRE_EQ(g.empty(), m.v.empty(), "empty");
    std::map<std::uint64_t, std::string> v{};
    for (auto it = g.begin_vertices(); it != g.end_vertices(); ++it)
    {
        REQUIRE_THAT(v.emplace(it->first, it->second).second, "a vertex is listed twice");
    }
    REQUIRE_THAT(v == m.v, "the vertices and their data");
    std::map<E, int> e{};
    for (auto it = g.begin_edges(); it != g.end_edges(); ++it)
    {
        REQUIRE_THAT(e.emplace(norm(it->first.a, it->first.b), it->second).second, "an edge is listed twice");
    }
    REQUIRE_THAT(e == m.e, "the edges and their data");
    for (std::uint64_t x = 0; x < ids; ++x)
    {
        const bool in = m.v.count(x) != 0;
        REQUIRE_EQ(g.find_vertex(x) != g.end_vertices(), in, "find_vertex " << x);
        if (in)
        {
            REQUIRE_EQ(g.at_vertex(x), m.v.at(x), "at_vertex " << x);
            std::multiset<std::uint64_t> a{};
            for (auto it = g.begin_adjacent(x); it != g.end_adjacent(x); ++it)
            {
                a.insert(*it);
            }
            REQUIRE_THAT(a == neighbours(m, x), "the neighbours of " << x << ": " << pbt::show(a) << " instead of " << pbt::show(neighbours(m, x)));
        }
        else
        {
            bool thrown = false;
            try
            {
                (void)g.at_vertex(x);
            }
            catch (const std::out_of_range&)
            {
                thrown = true;
            }
            REQUIRE_THAT(thrown, "at_vertex throws for an unknown vertex");
        }
        for (std::uint64_t y = 0; y < ids; ++y)
        {
            const bool ein = m.e.count(norm(x, y)) != 0;
            const auto id  = graph::make_edge_id(x, y);
            REQUIRE_EQ(g.find_edge(id) != g.end_edges(), ein, "find_edge " << x << "-" << y);
            if (ein)
            {
                REQUIRE_EQ(g.at_edge(id), m.e.at(norm(x, y)), "at_edge " << x << "-" << y);
            }
        }
    }
}
static void erase_v(model& m, std::uint64_t x)
{
    m.v.erase(x);
    for (auto it = m.e.begin(); it != m.e.end();)
    {
        it = it->first.first == x || it->first.second == x ? m.e.erase(it) : std::next(it);
    }
}

PBT("container", 12000, 120000, "at least one vertex with edges, or an edge, was erased")
{
    graph               g{};
    model               m{};
    const std::uint64_t ids = 2 + c.below(6);
    int                 next = 0;
    for (std::uint64_t x = 0; x < ids; ++x)
    {
        if (c.below(4) != 0)
        {
            const auto d = "d" + std::to_string(next++);
            g.insert_vertex(x, d);
            m.v.emplace(x, d);
        }
    }
    for (auto n = 4 + c.below(c.thorough ? 40 : 24); n > 0; --n)
    {
        switch (c.below(12))
        {
            case 0:
            case 1:
            case 2:
            {
                const auto x   = c.below(ids);
                const auto d   = "d" + std::to_string(next++);
                const bool had = m.v.count(x) != 0;
                const auto [it, ins] = g.insert_vertex(x, d);
                c.note("insert vertex ", x);
                m.v.emplace(x, d);
                REQUIRE_EQ(ins, !had, "insert_vertex reports whether the vertex is new");
                REQUIRE_THAT(it->first == x && it->second == m.v.at(x), "insert_vertex yields the vertex");
                break;
            }
            case 3:
            case 4:
            case 5:
            case 6:
            case 7:
            {
                const auto x  = c.below(ids);
                const auto y  = c.below(ids);
                const int  d  = next++;
                c.note("insert edge ", x, "-", y);
                const bool can = m.v.count(x) != 0 && m.v.count(y) != 0;
                const bool had = m.e.count(norm(x, y)) != 0;
                const auto [it, ins] = g.insert_edge(x, y, d);
                REQUIRE_EQ(ins, can && !had, "insert_edge reports whether the edge is new");
                if (!can)
                {
                    REQUIRE_THAT(it == g.end_edges(), "an edge needs both its vertices");
                }
                else
                {
                    m.e.emplace(norm(x, y), d);
                    REQUIRE_THAT(norm(it->first.a, it->first.b) == norm(x, y) && it->second == m.e.at(norm(x, y)), "insert_edge yields the edge and leaves the data of an existing one");
                }
                break;
            }
            case 8:
            {
                const auto x = c.below(ids);
                c.note("erase vertex ", x);
                const bool had = m.v.count(x) != 0;
                c.nontrivial(had && !neighbours(m, x).empty());
                if (m.e.count(norm(x, x)))
                {
                    c.label("erased a vertex with a loop");
                }
                bool r = false;
                const auto other = neighbours(m, x);
                if (had && c.flip())
                {
                    c.label("erased by the id stored in the graph");
                    r = g.erase_vertex(g.find_vertex(x)->first);
                }
                else if (had && !other.empty() && c.flip())
                {
                    // the id as a neighbour lists it
                    auto it = g.begin_adjacent(*other.begin());
                    while (*it != x)
                    {
                        ++it;
                    }
                    r = g.erase_vertex(*it);
                }
                else
                {
                    r = g.erase_vertex(x);
                }
                REQUIRE_EQ(r, had, "erase_vertex reports whether the vertex was there");
                erase_v(m, x);
                break;
            }
            case 9:
            {
                const auto x = c.below(ids);
                const auto y = c.below(ids);
                c.note("erase edge ", x, "-", y);
                const bool had = m.e.count(norm(x, y)) != 0;
                c.nontrivial(had);
                bool r = false;
                if (had && c.flip())
                {
                    r = g.erase_edge(g.find_edge(graph::make_edge_id(x, y))->first);
                }
                else
                {
                    r = g.erase_edge(graph::make_edge_id(x, y));
                }
                REQUIRE_EQ(r, had, "erase_edge reports whether the edge was there");
                m.e.erase(norm(x, y));
                break;
            }
            case 10:
            {
                // data are writable through the accessors
                const auto x = c.below(ids);
                const auto y = c.below(ids);
                c.note("write ", x, "-", y);
                if (m.v.count(x))
                {
                    g.at_vertex(x) += "!";
                    m.v.at(x) += "!";
                }
                if (m.e.count(norm(x, y)))
                {
                    g.at_edge(graph::make_edge_id(x, y)) += 1000;
                    m.e.at(norm(x, y)) += 1000;
                }
                break;
            }
            default:
            {
                if (c.below(6) == 0)
                {
                    c.note("clear");
                    g.clear();
                    m = {};
                }
                else
                {
                    c.note("copy");
                    const graph h{g};
                    g.clear();
                    REQUIRE_THAT(g.empty() && g.size_edges() == 0, "clear empties the graph");
                    same(h, m, ids);
                    g = h;
                }
                break;
            }
        }
        same(g, m, ids);
        c.evals++;
    }
}

PBT("search", 30000, 300000, "at least four vertices can be reached and one cannot")
{
    graph               g{};
    model               m{};
    const std::uint64_t ids = 1 + c.below(c.thorough ? 14 : 10);
    for (std::uint64_t x = 0; x < ids; ++x)
    {
        g.insert_vertex(x, std::to_string(x));
        m.v.emplace(x, "");
    }
    for (auto n = c.below(2 * ids); n > 0; --n)
    {
        const auto x = c.below(ids), y = c.below(ids);
        g.insert_edge(x, y, 0);
        m.e.emplace(norm(x, y), 0);
    }
    const auto s = c.below(ids);
    std::map<std::uint64_t, int> dist{{s, 0}};
    std::queue<std::uint64_t>    q{};
    q.push(s);
    while (!q.empty())
    {
        const auto x = q.front();
        q.pop();
        for (const auto y : neighbours(m, x))
        {
            if (dist.emplace(y, dist.at(x) + 1).second)
            {
                q.push(y);
            }
        }
    }
    c.note("from ", s, " reach ", dist.size(), " of ", ids);
    c.nontrivial(dist.size() >= 4 && dist.size() < ids);
    const graph& cg = g;
    {
        breadth_first_iterator<graph> it{cg, cg.find_vertex(s)};
        std::set<std::uint64_t>       seen{};
        int                           last = 0;
        while (!it.end())
        {
            const auto x = it.next()->first;
            REQUIRE_THAT(dist.count(x), "breadth-first search reaches " << x << ", which is not connected to " << s);
            REQUIRE_THAT(seen.insert(x).second, "breadth-first search visits " << x << " twice");
            REQUIRE_THAT(dist.at(x) >= last, "breadth-first search visits " << x << " after a vertex farther away");
            last = dist.at(x);
            REQUIRE_THAT(seen.size() > 1 || x == s, "breadth-first search starts at the given vertex");
            REQUIRE_THAT(it.discovered() >= seen.size() && it.discovered() <= dist.size(), "the number of discovered vertices");
        }
        REQUIRE_EQ(seen.size(), dist.size(), "breadth-first search reaches every connected vertex");
        REQUIRE_EQ(it.discovered(), dist.size(), "all connected vertices were discovered");
    }
    {
        depth_first_iterator<graph> it{cg, cg.find_vertex(s)};
        std::set<std::uint64_t>     seen{};
        // a vertex comes off the stack right after the latest visited vertex with an undiscovered neighbour: model it
        std::vector<std::uint64_t> st{s};
        std::set<std::uint64_t>    disc{s};
        while (!it.end())
        {
            const auto x = it.next()->first;
            REQUIRE_THAT(dist.count(x), "depth-first search reaches " << x << ", which is not connected to " << s);
            REQUIRE_THAT(seen.insert(x).second, "depth-first search visits " << x << " twice");
            REQUIRE_THAT(seen.size() > 1 || x == s, "depth-first search starts at the given vertex");
            // depth first: x was discovered by the latest visited vertex whose discoveries are not all visited
            REQUIRE_THAT(!st.empty(), "more vertices than were discovered");
            std::set<std::uint64_t> fresh{};
            for (const auto y : neighbours(m, x))
            {
                if (disc.insert(y).second)
                {
                    fresh.insert(y);
                }
            }
            // st holds groups: the group of the latest visited vertex is exhausted first
            const auto pos = std::find(st.rbegin(), st.rend(), x);
            REQUIRE_THAT(pos != st.rend(), x << " was not discovered yet");
            // entries above x may only be siblings discovered together with it
            static thread_local std::map<std::uint64_t, std::uint64_t> parent{};
            if (seen.size() == 1)
            {
                parent.clear();
                parent[s] = ~0ull;
            }
            for (auto r = st.rbegin(); r != pos; ++r)
            {
                REQUIRE_EQ(parent.at(*r), parent.at(x), "depth-first search visits " << x << " before " << *r << ", which was discovered deeper");
            }
            st.erase(std::next(pos).base());
            for (const auto y : fresh)
            {
                parent[y] = x;
                st.push_back(y);
            }
        }
        REQUIRE_EQ(seen.size(), dist.size(), "depth-first search reaches every connected vertex");
        REQUIRE_EQ(it.discovered(), dist.size(), "all connected vertices were discovered");
    }
}

PBT("pair", 100000, 1000000, "the pairs share an element or are reverses of each other")
{
    auto gen = [&] { return c.below(5) == 0 ? c.edgy<std::uint64_t>(0, ~0ull) : c.below(4); };
    const pr   p{gen(), gen()};
    const pr   q = c.below(4) == 0 ? pr{p.b, p.a} : pr{gen(), gen()};
    const auto a = norm(p.a, p.b), b = norm(q.a, q.b);
    c.note(p.a, "-", p.b, " ", q.a, "-", q.b);
    c.nontrivial(p.a == q.a || p.a == q.b || p.b == q.a || p.b == q.b);
    REQUIRE_EQ(p == q, a == b, "pairs are equal regardless of the order of their elements");
    REQUIRE_EQ(p != q, a != b, "inequality");
    REQUIRE_EQ(p < q, a < b, "less");
    REQUIRE_EQ(p > q, a > b, "greater");
    REQUIRE_EQ(p <= q, a <= b, "less or equal");
    REQUIRE_EQ(p >= q, a >= b, "greater or equal");
    if (a == b)
    {
        REQUIRE_EQ(std::hash<pr>{}(p), std::hash<pr>{}(q), "equal pairs have equal hashes");
    }
    REQUIRE_EQ(p.smaller_element(), a.first, "the smaller element");
    REQUIRE_EQ(p.bigger_element(), a.second, "the bigger element");
    REQUIRE_EQ(p.other_element(p.a), p.b, "the other element");
    REQUIRE_EQ(p.other_element(p.b), p.a, "the other element");
    auto r = p;
    REQUIRE_THAT(&r.other_element(r.a) == (r.a == r.b ? &r.b : &r.b), "a reference to the other element");
    REQUIRE_EQ(r.smaller_element(), a.first, "the smaller element, mutable");
    REQUIRE_EQ(r.bigger_element(), a.second, "the bigger element, mutable");
    bool thrown = false;
    const auto x = gen();
    try
    {
        const auto y = p.other_element(x);
        REQUIRE_THAT((x == p.a && y == p.b) || (x == p.b && y == p.a), "the other element");
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    REQUIRE_EQ(thrown, x != p.a && x != p.b, "other_element throws exactly for strangers");
}
