// P29: orthogonal physical design
#include "pd_common.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>

#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/mig.hpp>

using namespace fiction;
using namespace pd;

static net::opts specs(pbt::ctx& c)
{
    net::opts o{};
    o.max_gates = static_cast<unsigned>(c.pick({4, 8, 16, 30}));
    o.max_pis   = 5;
    o.ternary   = false;
    o.unary     = false;
    o.constants = false;
    o.const_po  = false;
    o.duplicates = false;  // orthogonal drawings are of simple graphs
    o.dangling  = false;
    o.max_pos   = 5;
    return o;
}

template <typename Lyt>
void design(pbt::ctx& c)
{
    const auto m = net::random_network<tec_t>(c, specs(c));
    orthogonal_physical_design_params ps{};
    ps.number_of_clock_phases = c.flip() ? num_clks::THREE : num_clks::FOUR;
    orthogonal_physical_design_stats st{};
    const auto l = orthogonal<Lyt>(m.ntk, ps, &st);
    c.nontrivial(m.m.n.size() > m.m.pis.size() + 4);
    c.key(m.m.n.size() * 1000 + static_cast<std::size_t>(l.x()) * 100 + static_cast<std::size_t>(l.y()));
    check_tiles(l, {});
    check_implements(l, m);
    REQUIRE_EQ(l.num_clocks(), ps.number_of_clock_phases == num_clks::THREE ? 3 : 4, "number of clock phases");
    REQUIRE_THAT(l.is_clocking_scheme(clock_name::TWODDWAVE), "2DDWave clocking");
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        const auto t = l.get_tile(n);
        l.foreach_fanin(n, [&](const auto& f)
        {
            const auto s = static_cast<tile<Lyt>>(f);
            REQUIRE_THAT((s.x + 1 == t.x && s.y == t.y) || (s.y + 1 == t.y && s.x == t.x), "information flows east and south");
        });
    });
    l.foreach_pi([&](const auto& n) { REQUIRE_EQ(static_cast<long>(l.get_tile(n).x), 0, "inputs are in the first column"); });
    l.foreach_po([&](const auto& f) { REQUIRE_EQ(static_cast<long>(static_cast<tile<Lyt>>(f).x), static_cast<long>(l.x()), "outputs are in the last column"); });
    // names
    std::size_t i = 0;
    l.foreach_pi([&](const auto& n)
    {
        const auto nm = l.get_name(l.make_signal(n));
        if (!m.pi_names[i].empty()) { REQUIRE_EQ(nm, m.pi_names[i], "name of input " << i); }
        ++i;
    });
    for (unsigned k = 0; k < m.po_names.size(); ++k)
    {
        if (!m.po_names[k].empty()) { REQUIRE_EQ(l.get_output_name(k), m.po_names[k], "name of output " << k); }
    }
    REQUIRE_EQ(get_name(l), m.name, "name of the layout");
    // statistics
    REQUIRE_EQ(st.x_size, static_cast<std::uint64_t>(l.x()) + 1, "width");
    REQUIRE_EQ(st.y_size, static_cast<std::uint64_t>(l.y()) + 1, "height");
    std::uint64_t gates = 0, wires = 0, cross = 0;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        if (l.is_buf(n)) { ++wires; } else { ++gates; }
        cross += l.get_tile(n).z != 0;
    });
    REQUIRE_EQ(st.num_crossings, cross, "number of crossings");
    REQUIRE_EQ(st.num_gates, gates, "number of gates");
    REQUIRE_EQ(st.num_wires, wires, "number of wires");
    const auto d = drvs(l);
    REQUIRE_EQ(d.drvs, 0u, "design rule violations");
    REQUIRE_EQ(d.warnings, 0u, "design rule warnings");
}
PBT("orthogonal", 3000, 80000, "a network of three gates or more") { design<cart_t>(c); }

PBT("orthogonal-fanins", 300, 5000, "a network with a gate of three inputs")
{
    auto o    = specs(c);
    o.ternary = true;
    const auto m = net::random_network<tec_t>(c, o);
    bool       big = false;
    for (const auto& n : m.m.n) { big |= n.in.size() > 2; }
    c.nontrivial(big);
    bool thrown = false;
    try { (void)orthogonal<cart_t>(m.ntk); }
    catch (const high_degree_fanin_exception&) { thrown = true; }
    REQUIRE_EQ(thrown, big, "gates of more than two inputs are rejected");
}

/// networks with complemented edges and majority gates of constants
template <typename Ntk>
void others(pbt::ctx& c)
{
    Ntk                               a{};
    std::vector<typename Ntk::signal> s{};
    const auto                        pis = c.in(2, 5), g = c.in(1, 12);
    for (int i = 0; i < pis; ++i) { s.push_back(a.create_pi()); }
    for (int i = 0; i < g; ++i)
    {
        auto x = c.pick(s), y = s[s.size() - 1 - c.below(std::min<std::size_t>(s.size(), 4))];
        if (c.flip()) { x = !x; }
        if (c.flip()) { y = !y; }
        s.push_back(c.chance(1, 3) ? a.create_or(x, y) : c.chance(1, 4) ? a.create_xor(x, y) : a.create_and(x, y));
    }
    std::map<std::uint64_t, int> used{};
    a.foreach_gate([&](const auto& n) { a.foreach_fanin(n, [&](const auto& f) { used[a.get_node(f)]++; }); });
    const auto po = [&](const auto& n)
    {
        if (used[n] > 0 && !c.chance(1, 8)) { return; }
        used[n]++;
        const auto f = a.make_signal(n);
        a.create_po(c.flip() ? f : !f);
    };
    a.foreach_gate(po);
    a.foreach_pi(po);
    c.note(a.num_gates(), " gates, ", a.num_pis(), " inputs, ", a.num_pos(), " outputs");
    {
        std::string d{};
        a.foreach_gate([&](const auto& n)
        {
            d += " " + std::to_string(n) + "=(";
            a.foreach_fanin(n, [&](const auto& f) { d += (a.is_complemented(f) ? "!" : "") + std::to_string(a.get_node(f)) + ","; });
            d += ")";
        });
        a.foreach_po([&](const auto& f) { d += " out " + std::string(a.is_complemented(f) ? "!" : "") + std::to_string(a.get_node(f)); });
        c.note(d);
    }
    if (a.num_pos() == 0) { throw pbt::discard{}; }
    c.nontrivial(a.num_gates() > 2);
    c.key(a.num_gates() * 100 + a.num_pos());
    const auto l = orthogonal<cart_t>(a);
    check_tiles(l, {});
    REQUIRE_EQ(l.num_pis(), a.num_pis(), "number of inputs");
    REQUIRE_EQ(l.num_pos(), a.num_pos(), "number of outputs");
    const auto want = net::simulate(a), got = function_of(l);
    for (std::size_t i = 0; i < got.size(); ++i) { REQUIRE_EQ(got[i], want[i], "output " << i << " computes its function"); }
    REQUIRE_EQ(drvs(l).drvs, 0u, "design rule violations");
}
PBT("orthogonal-aig-mig", 2000, 40000, "an and-inverter or majority-inverter graph of three gates or more")
{
    c.flip() ? others<mockturtle::aig_network>(c) : others<mockturtle::mig_network>(c);
}
