// what every physical design algorithm promises of the layouts it returns
#ifndef VERIF_PD_COMMON_HPP
#define VERIF_PD_COMMON_HPP
#include "lyt_common.hpp"
#include "net_common.hpp"

#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <fiction/utils/name_utils.hpp>

#include <sstream>

namespace pd
{
using namespace lyt;
using tec_t = mockturtle::names_view<technology_network>;

/// the function of a layout, from its tiles: output tile -> word, for the given values of the input tiles
template <typename Lyt>
std::vector<net::word> function_of(const Lyt& l, const std::vector<net::word>& pis = {net::PROJ.begin(), net::PROJ.end()}) { return net::simulate(l, pis); }

struct rules
{
    bool     border_pis{true};
    bool     border_pos{true};
    unsigned wire_fanouts{2};  ///< most connections a wire tile may feed
    bool     in_out_order{true};
};
/// every connection is between adjacent tiles and follows the information flow; only wires cross, and only wires;
/// nothing dangles, no tile feeds more than it can; inputs and outputs are placed where they have to be
template <typename Lyt>
void check_tiles(const Lyt& l, const rules& r)
{
    std::map<P3, unsigned> outs{};
    std::set<P3>           seen{};
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        const auto t = l.get_tile(n);
        REQUIRE_THAT(!t.is_dead(), "a node without a tile");
        const auto p = p3(t);
        REQUIRE_THAT(static_cast<long>(std::get<0>(p)) <= static_cast<long>(l.x()) && static_cast<long>(std::get<1>(p)) <= static_cast<long>(l.y()) && std::get<2>(p) <= 1, "outside of the layout: " << s3(p));
        REQUIRE_THAT(seen.insert(p).second, "two nodes on " << s3(p));
        REQUIRE_EQ(l.get_node(t), n, "tile and node belong to each other");
        REQUIRE_THAT(!l.is_dead(n), "a dead node on " << s3(p));
        std::set<P3> in{};
        l.foreach_fanin(n, [&](const auto& f)
        {
            if (l.is_constant(l.get_node(f))) { return; }
            const auto q = p3(static_cast<tile<Lyt>>(f));
            outs[q]++;
            REQUIRE_THAT(in.insert(ground(q)).second, "two connections enter " << s3(p) << " from " << s3(q));
            bool near = false;
            for (const auto& nb : neighbours(l, q)) { near |= ground(nb) == ground(p); }
            REQUIRE_THAT(near, "no information flow from " << s3(q) << " to " << s3(p));
        });
        if (std::get<2>(p) != 0)
        {
            REQUIRE_THAT(l.is_buf(n) && !l.is_pi(n) && !l.is_po(n), "a gate on the crossing layer: " << s3(p));
            const auto b = l.get_node(tl<Lyt>(ground(p)));
            REQUIRE_THAT(!l.is_constant(b) && l.is_buf(b) && !l.is_pi(b) && !l.is_po(b), "a wire crosses something that is no wire: " << s3(p));
        }
        const auto want = l.is_pi(n) ? 0u : l.is_po(n) || l.is_buf(n) || l.is_inv(n) ? 1u : 0u;
        if (want != 0) { REQUIRE_EQ(in.size(), want, "connections into " << s3(p)); }
        else if (!l.is_pi(n)) { REQUIRE_THAT(!in.empty() && in.size() <= 3, "connections into gate " << s3(p)); }
        else { REQUIRE_THAT(in.empty(), "connections into input " << s3(p)); }
    });
    for (const auto& p : seen)
    {
        const auto n = l.get_node(tl<Lyt>(p));
        if (l.is_po(n))
        {
            REQUIRE_EQ(outs[p], 0u, "an output feeds something: " << s3(p));
            continue;
        }
        REQUIRE_THAT(outs[p] > 0, "nothing reads " << s3(p));
        REQUIRE_THAT(outs[p] <= (l.is_buf(n) && !l.is_pi(n) ? r.wire_fanouts : 1u), "too many connections out of " << s3(p));
        // two connections out of a tile leave towards different neighbours
    }
    std::map<P3, std::set<P3>> to{};
    for (const auto& p : seen)
    {
        const auto n = l.get_node(tl<Lyt>(p));
        l.foreach_fanin(n, [&](const auto& f)
        {
            if (l.is_constant(l.get_node(f))) { return; }
            REQUIRE_THAT(to[p3(static_cast<tile<Lyt>>(f))].insert(ground(p)).second, "two connections leave into the same tile");
            const auto q = p3(static_cast<tile<Lyt>>(f));
            // a crossing: the wires above and below do not run along each other
            (void)q;
        });
    }
    for (const auto& p : seen)
    {
        if (std::get<2>(p) == 0) { continue; }
        const auto b = ground(p);
        // ports of the upper and lower wire are distinct
        std::set<P3> used{};
        for (const auto& x : {p, b})
        {
            l.foreach_fanin(l.get_node(tl<Lyt>(x)), [&](const auto& f) { REQUIRE_THAT(used.insert(ground(p3(static_cast<tile<Lyt>>(f)))).second, "wires that cross at " << s3(p) << " share a port"); });
            for (const auto& y : to[x]) { REQUIRE_THAT(used.insert(y).second, "wires that cross at " << s3(p) << " share a port"); }
        }
    }
    l.foreach_pi([&](const auto& n)
    {
        const auto p = p3(l.get_tile(n));
        REQUIRE_THAT(!r.border_pis || std::get<0>(p) == 0 || std::get<1>(p) == 0 || std::get<0>(p) == static_cast<long>(l.x()) || std::get<1>(p) == static_cast<long>(l.y()), "an input that is not at the border: " << s3(p));
    });
    l.foreach_po([&](const auto& f)
    {
        const auto p = p3(static_cast<tile<Lyt>>(f));
        REQUIRE_THAT(!r.border_pos || std::get<0>(p) == 0 || std::get<1>(p) == 0 || std::get<0>(p) == static_cast<long>(l.x()) || std::get<1>(p) == static_cast<long>(l.y()), "an output that is not at the border: " << s3(p));
    });
}
template <typename Lyt>
gate_level_drv_stats drvs(const Lyt& l)
{
    std::ostringstream    os{};
    gate_level_drv_params ps{};
    ps.out = &os;
    gate_level_drv_stats st{};
    gate_level_drvs(l, ps, &st);
    return st;
}
/// the layout implements the network: same inputs and outputs in the same order, same function, same names
template <typename Lyt, typename Made>
void check_implements(const Lyt& l, const Made& m, bool order = true)
{
    REQUIRE_EQ(l.num_pis(), m.m.pis.size(), "number of inputs");
    REQUIRE_EQ(l.num_pos(), m.m.pos.size(), "number of outputs");
    if (order)
    {
        const auto got = function_of(l);
        for (std::size_t i = 0; i < got.size(); ++i) { REQUIRE_EQ(got[i] & net::mask(static_cast<unsigned>(m.m.pis.size())), m.m.outputs()[i] & net::mask(static_cast<unsigned>(m.m.pis.size())), "output " << i << " computes its function"); }
        return;
    }
    // inputs and outputs are known by their names
    std::vector<net::word> v{};
    l.foreach_pi([&](const auto& n)
    {
        const auto nm = l.get_name(l.make_signal(n));
        const auto it = std::find(m.pi_names.begin(), m.pi_names.end(), nm);
        REQUIRE_THAT(it != m.pi_names.end(), "an input with an unknown name: " << nm);
        v.push_back(net::PROJ[static_cast<std::size_t>(it - m.pi_names.begin()) % 6]);
    });
    const auto got = function_of(l, v);
    std::set<std::string> nms{};
    for (unsigned i = 0; i < got.size(); ++i)
    {
        const auto nm = l.get_output_name(i);
        REQUIRE_THAT(nms.insert(nm).second, "two outputs called " << nm);
        const auto it = std::find(m.po_names.begin(), m.po_names.end(), nm);
        REQUIRE_THAT(it != m.po_names.end(), "an output with an unknown name: " << nm);
        const auto k = net::mask(static_cast<unsigned>(m.m.pis.size()));
        REQUIRE_EQ(got[i] & k, m.m.outputs()[static_cast<std::size_t>(it - m.po_names.begin())] & k, "output " << nm << " computes its function");
    }
}
}  // namespace pd
#endif
