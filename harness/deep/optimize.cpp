// P30: transformations of whole layouts: post-layout optimization, wiring reduction, hexagonalization
#include "pd_common.hpp"

#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>
#include <fiction/utils/layout_utils.hpp>

using namespace fiction;
using namespace pd;

static net::opts specs(pbt::ctx& c, unsigned gates)
{
    net::opts o{};
    o.max_gates  = static_cast<unsigned>(c.in<unsigned>(1, gates));
    o.max_pis    = 5;
    o.min_pis    = 2;
    o.ternary    = false;
    o.unary      = false;
    o.arbitrary  = false;
    o.constants  = false;
    o.const_po   = false;
    o.duplicates = false;
    o.dangling   = false;
    o.max_pos    = 4;
    return o;
}
struct facts
{
    long                     x, y;
    std::uint64_t            wires{}, gates{}, crossings{};
    std::vector<std::string> pis{}, pos{};
    std::string              name{};
    bool operator==(const facts&) const = default;
};
template <typename Lyt>
facts facts_of(const Lyt& l)
{
    facts f{static_cast<long>(l.x()), static_cast<long>(l.y())};
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        if (l.is_buf(n)) { ++f.wires; } else { ++f.gates; }
        f.crossings += l.get_tile(n).z != 0;
    });
    l.foreach_pi([&](const auto& n) { f.pis.push_back(l.get_name(l.make_signal(n))); });
    for (unsigned i = 0; i < l.num_pos(); ++i) { f.pos.push_back(l.get_output_name(i)); }
    f.name = get_name(l);
    return f;
}
template <typename Lyt>
std::map<std::string, int> kinds(const Lyt& l)
{
    std::map<std::string, int> r{};
    l.foreach_node([&](const auto& n)
    {
        if (!l.is_constant(n) && !l.is_buf(n)) { ++r[kitty::to_hex(l.node_function(n))]; }
    });
    return r;
}
template <typename Lyt>
void same_design(const Lyt& l, const net::model& m, const facts& was, const std::map<std::string, int>& gates)
{
    const auto now = facts_of(l);
    REQUIRE_EQ(l.num_pis(), m.pis.size(), "number of inputs");
    REQUIRE_EQ(l.num_pos(), m.pos.size(), "number of outputs");
    REQUIRE_THAT(kinds(l) == gates, "the gates are the same");
    REQUIRE_THAT(now.pis == was.pis, "names of the inputs");
    REQUIRE_THAT(now.pos == was.pos, "names of the outputs");
    REQUIRE_EQ(now.name, was.name, "name of the layout");
    const auto got = function_of(l), want = m.outputs();
    const auto k   = net::mask(static_cast<unsigned>(m.pis.size()));
    for (std::size_t i = 0; i < got.size(); ++i) { REQUIRE_EQ(got[i] & k, want[i] & k, "output " << i << " computes its function"); }
    REQUIRE_EQ(drvs(l).drvs, 0u, "design rule violations");
}
template <typename Lyt>
void tight(const Lyt& l)
{
    long x = 0, y = 0;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        x = std::max(x, static_cast<long>(l.get_tile(n).x));
        y = std::max(y, static_cast<long>(l.get_tile(n).y));
    });
    REQUIRE_EQ(static_cast<long>(l.x()), x, "no empty columns to the right");
    REQUIRE_EQ(static_cast<long>(l.y()), y, "no empty rows at the bottom");
}

/// outputs off the eastern and southern border
template <typename Lyt>
std::vector<tile<Lyt>> misplaced_outputs(const Lyt& l)
{
    std::vector<tile<Lyt>> r{};
    l.foreach_po([&](const auto& f)
    {
        const auto t = l.get_tile(l.get_node(f));
        if (t.x != l.x() && t.y != l.y()) { r.push_back(t); }
    });
    return r;
}
/// something occupies the row to the east and the column to the south
template <typename Lyt>
bool shut_in(const Lyt& l, const tile<Lyt>& t)
{
    bool east = false, south = false;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        const auto o = l.get_tile(n);
        east |= o.y == t.y && o.x > t.x;
        south |= o.x == t.x && o.y > t.y;
    });
    return east && south;
}

PBT("wiring-reduction", 1200, 40000, "a layout whose wiring shrinks")
{
    const auto m   = net::random_network<tec_t>(c, specs(c, 14));
    const auto l   = orthogonal<cart_t>(m.ntk);
    const auto was = facts_of(l);
    const auto g   = kinds(l);
    wiring_reduction_stats st{};
    wiring_reduction(l, {}, &st);
    const auto now = facts_of(l);
    c.nontrivial(now.wires < was.wires);
    c.key(was.wires * 1000 + now.wires);
    check_tiles(l, {});
    same_design(l, m.m, was, g);
    REQUIRE_THAT(now.wires <= was.wires && now.x <= was.x && now.y <= was.y, "never larger");
    tight(l);
    REQUIRE_EQ(st.x_size_before, static_cast<std::uint64_t>(was.x) + 1, "width before");
    REQUIRE_EQ(st.y_size_before, static_cast<std::uint64_t>(was.y) + 1, "height before");
    REQUIRE_EQ(st.x_size_after, static_cast<std::uint64_t>(now.x) + 1, "width after");
    REQUIRE_EQ(st.y_size_after, static_cast<std::uint64_t>(now.y) + 1, "height after");
    REQUIRE_EQ(st.num_wires_before, was.wires - m.m.pis.size() - m.m.pos.size(), "wires before");
    REQUIRE_EQ(st.num_wires_after, now.wires - m.m.pis.size() - m.m.pos.size(), "wires after");
}

PBT("post-layout-optimization", 600, 20000, "a layout whose area shrinks")
{
    const auto m   = net::random_network<tec_t>(c, specs(c, 10));
    const auto l   = orthogonal<cart_t>(m.ntk);
    const auto was = facts_of(l);
    const auto g   = kinds(l);
    post_layout_optimization_params ps{};
    if (c.flip()) { ps.max_gate_relocations = c.below(20); }
    ps.optimize_pos_only   = c.chance(1, 5);
    ps.planar_optimization = c.chance(1, 4);
    c.note(ps.max_gate_relocations ? "relocations " + std::to_string(*ps.max_gate_relocations) : "", ps.optimize_pos_only ? ", outputs only" : "", ps.planar_optimization ? ", planar" : "");
    post_layout_optimization_stats st{};
    post_layout_optimization(l, ps, &st);
    const auto now = facts_of(l);
    c.nontrivial((now.x + 1) * (now.y + 1) < (was.x + 1) * (was.y + 1));
    c.key(was.wires * 1000 + now.wires);
    rules r{};
    r.border_pos = false;
    check_tiles(l, r);
    for (const auto& t : misplaced_outputs(l))
    {
        REQUIRE_THAT(shut_in(l, t), "an output that is not at the eastern or southern border: " << s3(p3(t)));
        c.label("an output is shut in");  // KF-1
    }
    same_design(l, m.m, was, g);
    REQUIRE_THAT((now.x + 1) * (now.y + 1) <= (was.x + 1) * (was.y + 1), "never larger");
    tight(l);
    if (ps.planar_optimization) { REQUIRE_THAT(now.crossings <= was.crossings, "planar optimization creates no crossings"); }
    REQUIRE_EQ(st.x_size_before, static_cast<std::uint64_t>(was.x) + 1, "width before");
    REQUIRE_EQ(st.y_size_before, static_cast<std::uint64_t>(was.y) + 1, "height before");
    REQUIRE_EQ(st.x_size_after, static_cast<std::uint64_t>(now.x) + 1, "width after");
    REQUIRE_EQ(st.y_size_after, static_cast<std::uint64_t>(now.y) + 1, "height after");
    REQUIRE_EQ(st.num_crossings_before, was.crossings, "crossings before");
    REQUIRE_EQ(st.num_crossings_after, now.crossings, "crossings after");
}

PBT_KNOWN("KF-1", "shut-in-output", "the reproduction")
{
    technology_network       n{};
    std::vector<technology_network::signal> pi{};
    for (int i = 0; i < 5; ++i) { pi.push_back(n.create_pi()); }
    const auto x = n.create_not(pi[1]);
    const auto y = n.create_buf(pi[3]);
    for (const auto& f : {pi[0], pi[2], pi[4], x, y}) { n.create_po(f); }
    const auto l = orthogonal<cart_t>(n);
    post_layout_optimization(l);
    c.nontrivial(true);
    REQUIRE_THAT(misplaced_outputs(l).empty(), "an output that is not at the eastern or southern border");
}

PBT("hexagonalization", 1200, 40000, "a layout of two gates or more")
{
    using hex_t    = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>>;
    const auto m   = net::random_network<tec_t>(c, specs(c, 12));
    const auto l   = orthogonal<cart_t>(m.ntk);
    if (c.flip())
    {
        c.note("optimized");
        post_layout_optimization(l);
        if (!misplaced_outputs(l).empty()) { throw pbt::discard{}; }  // KF-1
    }
    const auto was = facts_of(l);
    const auto g   = kinds(l);
    hexagonalization_params ps{};
    using mode = hexagonalization_params::io_pin_extension_mode;
    ps.input_pin_extension  = c.pick(std::vector<mode>{mode::NONE, mode::EXTEND, mode::EXTEND_PLANAR});
    ps.output_pin_extension = c.pick(std::vector<mode>{mode::NONE, mode::EXTEND, mode::EXTEND_PLANAR});
    c.note("extension ", static_cast<int>(ps.input_pin_extension), " ", static_cast<int>(ps.output_pin_extension));
    hexagonalization_stats st{};
    c.nontrivial(g.size() > 1);
    c.key(was.wires);
    hex_t h{};
    try { h = hexagonalization<hex_t>(l, ps, &st); }
    catch (const hexagonalization_io_pin_routing_error&)
    {
        REQUIRE_THAT(ps.input_pin_extension != mode::NONE || ps.output_pin_extension != mode::NONE, "nothing to route");
        c.label("no routing");
        return;
    }
    rules r{};
    r.border_pis = ps.input_pin_extension != mode::NONE;
    r.border_pos = ps.output_pin_extension != mode::NONE;
    check_tiles(h, r);
    same_design(h, m.m, was, g);
    REQUIRE_THAT(facts_of(l) == was, "the original is untouched");
    const auto now = facts_of(h);
    REQUIRE_THAT(h.is_clocking_scheme(clock_name::ROW), "row-clocked");
    REQUIRE_EQ(st.x_size, static_cast<std::uint64_t>(now.x) + 1, "width");
    REQUIRE_EQ(st.y_size, static_cast<std::uint64_t>(now.y) + 1, "height");
    REQUIRE_EQ(st.num_gates, now.gates, "gates");
    REQUIRE_EQ(st.num_wires, now.wires, "wires");
    REQUIRE_EQ(st.num_crossings, now.crossings, "crossings");
    if (ps.input_pin_extension != mode::NONE) { h.foreach_pi([&](const auto& n) { REQUIRE_EQ(static_cast<long>(h.get_tile(n).y), 0, "inputs are in the top row"); }); }
    if (ps.output_pin_extension != mode::NONE) { h.foreach_po([&](const auto& f) { REQUIRE_EQ(static_cast<long>(h.get_tile(h.get_node(f)).y), now.y, "outputs are in the bottom row"); }); }
}
