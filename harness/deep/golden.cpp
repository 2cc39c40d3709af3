// P40: graph-oriented layout design
#include "pd_common.hpp"

#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>

#include <mockturtle/networks/aig.hpp>

using namespace fiction;
using namespace pd;
using params = graph_oriented_layout_design_params;
using effort = params::effort_mode;
using costs  = params::cost_objective;

namespace
{
net::opts specs(pbt::ctx& c, const unsigned gates)
{
    net::opts o{};
    o.max_gates  = gates;
    o.max_pis    = 4;
    o.max_pos    = 3;
    o.ternary    = false;
    o.unary      = false;
    o.constants  = false;
    o.const_po   = false;
    o.duplicates = false;
    o.dangling   = false;
    (void)c;
    return o;
}
/// a cost function of our own: bends
std::uint64_t bends(const cart_t& l)
{
    std::uint64_t r = 0;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n) || l.get_tile(n).is_dead()) { return; }
        r += l.get_tile(n).x + 2 * l.get_tile(n).y;
    });
    return r;
}
std::uint64_t cost_of(const cart_t& l, const costs k)
{
    std::uint64_t wires = 0, cr = 0, X = 0, Y = 0;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        const auto t = l.get_tile(n);
        wires += l.is_buf(n) && !l.is_pi(n) && !l.is_po(n);
        cr += t.z != 0;
        X = std::max<std::uint64_t>(X, t.x), Y = std::max<std::uint64_t>(Y, t.y);
    });
    const auto area = (X + 1) * (Y + 1);
    switch (k)
    {
        case costs::AREA: return area;
        case costs::WIRES: return wires;
        case costs::CROSSINGS: return cr;
        case costs::ACP: return area * (cr + 1);
        default: return bends(l);
    }
}
template <typename Made>
void check_result(const cart_t& l, const params& ps, const Made& m)
{
    check_tiles(l, {});
    check_implements(l, m);
    REQUIRE_THAT(l.is_clocking_scheme(clock_name::TWODDWAVE), "2DDWave clocking");
    REQUIRE_EQ(static_cast<int>(l.num_clocks()), 4, "clocks");
    long X = 0, Y = 0;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        const auto t = l.get_tile(n);
        X = std::max<long>(X, static_cast<long>(t.x)), Y = std::max<long>(Y, static_cast<long>(t.y));
        REQUIRE_THAT(!ps.planar || t.z == 0, "a crossing at " << s3(p3(t)) << " of a planar layout");
        P3 a{}, b{};
        l.foreach_fanin(n, [&](const auto& f)
        {
            const auto s = static_cast<tile<cart_t>>(f);
            REQUIRE_THAT((s.x + 1 == t.x && s.y == t.y) || (s.y + 1 == t.y && s.x == t.x), "information flows east and south");
            a = p3(s);
        });
        if (ps.straight_inverters && l.is_inv(n))
        {
            l.foreach_fanout(n, [&](const auto& o) { b = p3(l.get_tile(o)); });
            REQUIRE_THAT(std::get<0>(a) == std::get<0>(b) || std::get<1>(a) == std::get<1>(b), "a bent inverter at " << s3(p3(t)));
        }
    });
    REQUIRE_THAT(X == static_cast<long>(l.x()) && Y == static_cast<long>(l.y()), "the layout is larger than what it contains");
    l.foreach_pi([&](const auto& n) { const auto t = l.get_tile(n); REQUIRE_THAT(t.x == 0 || t.y == 0, "an input that is neither in the first row nor in the first column"); });
    l.foreach_po([&](const auto& f) { const auto t = static_cast<tile<cart_t>>(f); REQUIRE_THAT(t.x == l.x() || t.y == l.y(), "an output that is neither in the last row nor in the last column"); });
    std::size_t i = 0;
    l.foreach_pi([&](const auto& n)
    {
        if (!m.pi_names[i].empty()) { REQUIRE_EQ(l.get_name(l.make_signal(n)), m.pi_names[i], "name of input " << i); }
        ++i;
    });
    for (unsigned k = 0; k < m.po_names.size(); ++k)
    {
        if (!m.po_names[k].empty()) { REQUIRE_EQ(l.get_output_name(k), m.po_names[k], "name of output " << k); }
    }
    REQUIRE_EQ(get_name(l), m.name, "name of the layout");
    const auto d = drvs(l);
    REQUIRE_EQ(d.drvs, 0u, "design rule violations");
}
void check_stats(const cart_t& l, const graph_oriented_layout_design_stats& st)
{
    std::uint64_t gates = 0, wires = 0, cross = 0;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        (l.is_buf(n) ? wires : gates)++;
        cross += l.get_tile(n).z != 0;
    });
    REQUIRE_EQ(st.x_size, static_cast<std::uint64_t>(l.x()) + 1, "width");
    REQUIRE_EQ(st.y_size, static_cast<std::uint64_t>(l.y()) + 1, "height");
    REQUIRE_EQ(st.num_crossings, cross, "number of crossings");
    REQUIRE_EQ(st.num_gates, gates, "number of gates");
    REQUIRE_EQ(st.num_wires, wires, "number of wires");
}
std::string shape(const cart_t& l)
{
    std::set<std::string> v{};
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        std::string s = s3(p3(l.get_tile(n))) + ":";
        l.foreach_fanin(n, [&](const auto& f) { s += s3(p3(static_cast<tile<cart_t>>(f))); });
        v.insert(s);
    });
    std::string r{};
    for (const auto& s : v) { r += s + " "; }
    return r;
}
params options(pbt::ctx& c)
{
    params ps{};
    const auto e = c.below(8);
    ps.mode      = e < 3 ? effort::HIGH_EFFICIENCY : e < 6 ? effort::HIGH_EFFORT : e < 7 ? effort::HIGHEST_EFFORT : effort::MAXIMUM_EFFORT;
    ps.cost      = c.pick(std::vector<costs>{costs::AREA, costs::AREA, costs::WIRES, costs::CROSSINGS, costs::ACP, costs::CUSTOM});
    ps.num_vertex_expansions = 1 + c.below(5);
    ps.planar                = c.below(6) == 0;
    ps.straight_inverters    = c.below(3) == 0;
    ps.seed                  = static_cast<std::uint32_t>(c.below(1000));
    if (c.below(3) == 0)
    {
        ps.tiles_to_skip_between_pis           = 1 + c.below(2);
        ps.randomize_tiles_to_skip_between_pis = c.flip();
    }
    return ps;
}
std::string show(const params& ps)
{
    return std::string(to_string(ps.mode)) + " " + std::string(to_string(ps.cost)) + " expansions " + std::to_string(ps.num_vertex_expansions) + (ps.planar ? " planar" : "") + (ps.straight_inverters ? " straight" : "") + " skip " + std::to_string(ps.tiles_to_skip_between_pis) + (ps.randomize_tiles_to_skip_between_pis ? " random" : "") + " seed " + std::to_string(*ps.seed) + (ps.return_first ? " first" : "") + (ps.enable_multithreading ? " threads" : "");
}
}  // namespace

/// any layout, whatever the options: valid, equivalent, obeys the options, true statistics
PBT("design", 700, 20000, "a layout of a network with three gates or more")
{
    const auto m  = net::random_network<tec_t>(c, specs(c, static_cast<unsigned>(c.pick({3, 5, 8, 12}))));
    auto       ps = options(c);
    ps.timeout      = 150;
    ps.return_first = c.flip();
    c.note(show(ps));
    graph_oriented_layout_design_stats st{};
    auto                               ntk = m.ntk;
    const auto l = graph_oriented_layout_design<cart_t>(ntk, ps, &st, ps.cost == costs::CUSTOM || c.flip() ? std::function<std::uint64_t(const cart_t&)>{bends} : nullptr);
    REQUIRE_EQ(ntk.size(), m.ntk.size(), "the network is not changed");
    c.label(l ? "found" : "none");
    c.nontrivial(l.has_value() && m.m.n.size() > m.m.pis.size() + 4);
    if (!l) { return; }
    check_result(*l, ps, m);
    check_stats(*l, st);
}

/// more time only improves the result; a seed determines it
PBT("improvement", 250, 8000, "two layouts of a network with a gate")
{
    const auto m  = net::random_network<tec_t>(c, specs(c, 7));
    auto       ps = options(c);
    if (ps.mode == effort::MAXIMUM_EFFORT) { ps.mode = effort::HIGH_EFFORT; }
    ps.timeout      = 200;
    ps.return_first = true;
    c.note(show(ps));
    auto       ntk = m.ntk;
    const auto a   = graph_oriented_layout_design<cart_t>(ntk, ps, nullptr, bends);
    const auto b   = graph_oriented_layout_design<cart_t>(ntk, ps, nullptr, bends);
    ps.return_first = false;
    const auto d    = graph_oriented_layout_design<cart_t>(ntk, ps, nullptr, bends);
    if (!a || !b || !d) { throw pbt::discard{}; }
    c.nontrivial(m.m.n.size() > m.m.pis.size() + 2);
    check_result(*a, ps, m);
    check_result(*d, ps, m);
    REQUIRE_EQ(shape(*a), shape(*b), "the same seed yields the same first layout");
    REQUIRE_THAT(cost_of(*d, ps.cost) <= cost_of(*a, ps.cost), "the best layout costs " << cost_of(*d, ps.cost) << ", the first one " << cost_of(*a, ps.cost));
}

/// several threads
PBT("threads", 60, 1500, "a layout of a network with three gates or more")
{
    const auto m  = net::random_network<tec_t>(c, specs(c, 7));
    auto       ps = options(c);
    ps.timeout               = 150;
    ps.enable_multithreading = true;
    ps.return_first          = c.flip();
    c.note(show(ps));
    graph_oriented_layout_design_stats st{};
    auto                               ntk = m.ntk;
    const auto l = graph_oriented_layout_design<cart_t>(ntk, ps, &st, bends);
    c.nontrivial(l.has_value() && m.m.n.size() > m.m.pis.size() + 4);
    if (!l) { return; }
    check_result(*l, ps, m);
}

/// requests that cannot be met
PBT("rejected", 400, 4000, "the network has a gate of three inputs")
{
    auto o    = specs(c, 6);
    o.ternary = true;
    const auto m = net::random_network<tec_t>(c, o);
    bool       big = false;
    for (const auto& n : m.m.n) { big |= n.in.size() > 2; }
    c.nontrivial(big);
    params     ps{};
    const bool no_cost = !big || c.flip();
    ps.mode         = effort::HIGH_EFFICIENCY;
    ps.timeout      = 50;
    ps.return_first = true;
    if (no_cost) { ps.cost = costs::CUSTOM; }
    auto ntk = m.ntk;
    int  thrown = 0;
    try { (void)graph_oriented_layout_design<cart_t>(ntk, ps); }
    catch (const high_degree_fanin_exception&) { thrown = 1; }
    catch (const std::invalid_argument&) { thrown = 2; }
    REQUIRE_EQ(thrown, big ? 1 : 2, "exception");
}

/// the default effort finds a layout of a small network
PBT("found", 300, 8000, "a network of three gates or more")
{
    const auto m  = net::random_network<tec_t>(c, specs(c, 4));
    params     ps{};
    ps.cost               = c.pick(std::vector<costs>{costs::AREA, costs::WIRES, costs::CROSSINGS, costs::ACP, costs::CUSTOM});
    ps.return_first       = true;
    ps.timeout            = 20000;
    ps.seed               = static_cast<std::uint32_t>(c.below(1000));
    c.note(show(ps));
    auto       ntk = m.ntk;
    const auto l   = graph_oriented_layout_design<cart_t>(ntk, ps, nullptr, bends);
    c.nontrivial(m.m.n.size() > m.m.pis.size() + 4);
    REQUIRE_THAT(l.has_value(), "no layout found");
    check_result(*l, ps, m);
}
