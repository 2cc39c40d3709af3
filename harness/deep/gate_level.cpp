// P23: gate-level layouts against a model, under arbitrary histories
#include "pbt.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

#include <algorithm>
#include <array>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <vector>

using namespace fiction;
using P3 = std::tuple<long, long, long>;

using cart_t = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using hex_t  = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>>;

enum fun : unsigned { BUF, NOT, AND, NAND, OR, NOR, LT, GE, GT, LE, XOR, XNOR, MAJ, OTHER };
static const char* const     NAME[] = {"buf", "not", "and", "nand", "or", "nor", "lt", "ge", "gt", "le", "xor", "xnor", "maj", "other"};
static const unsigned        ARITY[] = {1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 0};
static const std::uint64_t   TT[]    = {0x2, 0x1, 0x8, 0x7, 0xe, 0x1, 0x2, 0xd, 0x4, 0xb, 0x6, 0x9, 0xe8, 0};

struct mnode
{
    fun               f{BUF};
    std::uint64_t     tt{};
    unsigned          vars{1};
    std::vector<P3>   kids{};
    std::optional<P3> at{};
    std::string       name{};
    std::uint32_t     value{};
    bool              dead{};
};
struct model
{
    std::vector<mnode>             n{};  // index 0, 1: constants
    std::map<P3, std::uint32_t>    tiles{};
    std::vector<std::uint32_t>     pis{};
    std::vector<P3>                pos{};
    std::string                    name{};
    [[nodiscard]] std::uint32_t at(const P3& p) const
    {
        const auto it = tiles.find(p);
        return it == tiles.end() ? 0 : it->second;
    }
    void clear(const P3& p)
    {
        const auto it = tiles.find(p);
        if (it == tiles.end()) { return; }
        n[it->second].dead = true;
        n[it->second].at.reset();
        if (const auto o = std::find(pos.begin(), pos.end(), p); o != pos.end()) { pos.erase(o); }
        tiles.erase(it);
    }
    std::uint32_t put(mnode m, const P3& p)
    {
        clear(p);
        m.at = p;
        n.push_back(m);
        tiles[p] = static_cast<std::uint32_t>(n.size() - 1);
        return static_cast<std::uint32_t>(n.size() - 1);
    }
};
static std::string s3(const P3& p)
{
    return "(" + std::to_string(std::get<0>(p)) + "," + std::to_string(std::get<1>(p)) + "," + std::to_string(std::get<2>(p)) + ")";
}
template <typename T>
P3 p3(const T& t) { return {static_cast<long>(t.x), static_cast<long>(t.y), static_cast<long>(t.z)}; }

template <typename Lyt>
struct pair_t
{
    Lyt   l;
    model m;
};

template <typename Lyt>
typename Lyt::tile tl(const P3& p) { return typename Lyt::tile(std::get<0>(p), std::get<1>(p), std::get<2>(p)); }
template <typename Lyt>
typename Lyt::signal sg(const P3& p) { return static_cast<typename Lyt::signal>(tl<Lyt>(p)); }

// faces that touch, +- one layer
template <typename Lyt>
bool adjacent_elev(const Lyt& l, const P3& a, const P3& b)
{
    const auto [ax, ay, az] = a;
    const auto [bx, by, bz] = b;
    if (std::abs(az - bz) > 1) { return false; }
    if constexpr (std::is_same_v<Lyt, cart_t>) { return std::abs(ax - bx) + std::abs(ay - by) == 1; }
    else
    {
        const long ha = 2 * ax + (ay % 2 == 0), hb = 2 * bx + (by % 2 == 0);
        return (ay == by && std::abs(ha - hb) == 2) || (std::abs(ay - by) == 1 && std::abs(ha - hb) == 1);
    }
}

template <typename Lyt>
void compare(pbt::ctx& c, const pair_t<Lyt>& p, long X, long Y, long Z, const std::string& who)
{
    const auto& l = p.l;
    const auto& m = p.m;
    REQUIRE_EQ(static_cast<std::size_t>(l.size()), m.n.size(), "number of nodes" << who);
    REQUIRE_EQ(l.get_layout_name(), m.name, "layout name" << who);
    // --- interface
    std::vector<std::uint32_t> pis{};
    l.foreach_pi([&](const auto& n) { pis.push_back(n); });
    REQUIRE_EQ(pis, m.pis, "primary inputs" << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_pis()), m.pis.size(), "number of inputs" << who);
    std::vector<P3> pos{};
    l.foreach_po([&](const auto& s) { pos.push_back(p3(static_cast<typename Lyt::tile>(s))); });
    REQUIRE_THAT(pos == m.pos, "primary outputs, " << pos.size() << " vs " << m.pos.size() << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_pos()), m.pos.size(), "number of outputs" << who);
    for (std::size_t i = 0; i < m.pis.size(); ++i)
    {
        REQUIRE_EQ(l.pi_at(static_cast<std::uint32_t>(i)), m.pis[i], "pi_at" << who);
        REQUIRE_EQ(l.get_input_name(static_cast<std::uint32_t>(i)), m.n[m.pis[i]].name, "input name" << who);
    }
    for (std::size_t i = 0; i < m.pos.size(); ++i)
    {
        REQUIRE_EQ(l.po_at(static_cast<std::uint32_t>(i)), sg<Lyt>(m.pos[i]), "po_at" << who);
        REQUIRE_EQ(l.get_output_name(static_cast<std::uint32_t>(i)), m.n[m.at(m.pos[i])].name, "output name" << who);
    }
    // --- counters
    std::size_t gates = 0, wires = 0, cross = 0;
    for (const auto& [q, n] : m.tiles)
    {
        (m.n[n].f == BUF ? wires : gates)++;
        const auto [x, y, z] = q;
        if (z == 1)
        {
            const auto b = m.at({x, y, 0});
            cross += b != 0 && (m.n[n].f == BUF || m.n[b].f == BUF);
        }
    }
    REQUIRE_EQ(static_cast<std::size_t>(l.num_gates()), gates, "number of gates" << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_wires()), wires, "number of wires" << who);
    REQUIRE_EQ(static_cast<std::size_t>(l.num_crossings()), cross, "number of crossings" << who);
    REQUIRE_EQ(l.is_empty(), m.tiles.empty(), "is_empty" << who);
    // --- iteration
    std::vector<std::uint32_t> nd{}, gt{}, wr{}, wnd{}, wgt{}, wwr{};
    l.foreach_node([&](const auto& n) { nd.push_back(n); });
    l.foreach_gate([&](const auto& n) { gt.push_back(n); });
    l.foreach_wire([&](const auto& n) { wr.push_back(n); });
    for (std::uint32_t i = 0; i < m.n.size(); ++i)
    {
        const bool pi = std::find(m.pis.begin(), m.pis.end(), i) != m.pis.end();
        if (m.n[i].dead) { continue; }
        wnd.push_back(i);
        if (i >= 2 && !pi) { wgt.push_back(i); }
        if (i >= 2 && m.n[i].f == BUF) { wwr.push_back(i); }
    }
    REQUIRE_EQ(nd, wnd, "live nodes" << who);
    REQUIRE_EQ(gt, wgt, "gates" << who);
    REQUIRE_EQ(wr, wwr, "wires" << who);
    // --- tiles
    for (long z = 0; z <= Z; ++z)
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x)
            {
                const P3   q{x, y, z};
                const auto t = tl<Lyt>(q);
                const auto n = m.at(q);
                REQUIRE_EQ(l.get_node(t), n, "node of " << s3(q) << who);
                REQUIRE_EQ(l.is_empty_tile(t), n == 0, "emptiness of " << s3(q) << who);
                REQUIRE_EQ(l.is_wire_tile(t), n != 0 && m.n[n].f == BUF, "wire at " << s3(q) << who);
                const bool pi = std::find(m.pis.begin(), m.pis.end(), n) != m.pis.end();
                REQUIRE_EQ(l.is_pi_tile(t), n != 0 && pi, "input at " << s3(q) << who);
                REQUIRE_EQ(l.is_po_tile(t), std::find(m.pos.begin(), m.pos.end(), q) != m.pos.end(), "output at " << s3(q) << who);
                REQUIRE_EQ(l.is_gate_tile(t), n != 0 && !pi, "gate at " << s3(q) << who);
            }
        }
    }
    // --- nodes
    for (std::uint32_t i = 2; i < m.n.size(); ++i)
    {
        const auto& k = m.n[i];
        REQUIRE_EQ(l.is_dead(i), k.dead, "dead node " << i << who);
        REQUIRE_EQ(l.get_name(i), k.name, "name of node " << i << who);
        REQUIRE_EQ(l.has_name(i), !k.name.empty(), "has_name of node " << i << who);
        REQUIRE_EQ(l.value(i), k.value, "value of node " << i << who);
        if (k.at) { REQUIRE_THAT(p3(l.get_tile(i)) == *k.at && !l.get_tile(i).is_dead(), "tile of node " << i << who); }
        else { REQUIRE_THAT(l.get_tile(i).is_dead(), "unplaced nodes have no tile: " << i << who); }
        kitty::dynamic_truth_table tt(k.vars);
        kitty::create_from_words(tt, &k.tt, &k.tt + 1);
        REQUIRE_THAT(l.node_function(i) == tt, "function of node " << i << who);
        const auto f = k.f;
        REQUIRE_THAT(l.is_buf(i) == (f == BUF) && l.is_inv(i) == (f == NOT) && l.is_and(i) == (f == AND) && l.is_nand(i) == (f == NAND) &&
                         l.is_or(i) == (f == OR) && l.is_nor(i) == (f == NOR) && l.is_lt(i) == (f == LT) && l.is_ge(i) == (f == GE) &&
                         l.is_gt(i) == (f == GT) && l.is_le(i) == (f == LE) && l.is_xor(i) == (f == XOR) && l.is_xnor(i) == (f == XNOR) && l.is_maj(i) == (f == MAJ),
                     "type of node " << i << " (" << NAME[f] << ")" << who);
        if (!k.at) { continue; }
        // data flow
        const auto      t = tl<Lyt>(*k.at);
        std::vector<P3> fi{}, fiu{}, wfi{}, wfiu{};
        for (const auto& x : l.incoming_data_flow(t)) { fi.push_back(p3(x)); }
        for (const auto& x : l.template incoming_data_flow<false>(t)) { fiu.push_back(p3(x)); }
        auto clk = [&](const P3& a) { return static_cast<int>(l.get_clock_number(tl<Lyt>(a))); };
        auto flows = [&](const P3& a, const P3& b) { return (clk(a) + 1) % l.num_clocks() == clk(b); };
        for (const auto& kid : k.kids)
        {
            if (m.at(kid) == 0 || !adjacent_elev(l, *k.at, kid)) { continue; }
            wfiu.push_back(kid);
            if (flows(kid, *k.at)) { wfi.push_back(kid); }
        }
        REQUIRE_THAT(fi == wfi, "incoming data flow of node " << i << ": " << fi.size() << " vs " << wfi.size() << who);
        REQUIRE_THAT(fiu == wfiu, "incoming data flow of node " << i << " without clocking" << who);
        REQUIRE_EQ(static_cast<std::size_t>(l.fanin_size(i)), wfi.size(), "fanin size" << who);
        std::set<P3>      wfo{}, wfou{};
        std::multiset<P3> fo{}, fou{};
        for (const auto& x : l.outgoing_data_flow(t)) { fo.insert(p3(x)); }
        for (const auto& x : l.template outgoing_data_flow<false>(t)) { fou.insert(p3(x)); }
        for (const auto& [q, n] : m.tiles)
        {
            const auto& ks = m.n[n].kids;
            if (std::find(ks.begin(), ks.end(), *k.at) == ks.end() || !adjacent_elev(l, *k.at, q)) { continue; }
            wfou.insert(q);
            if (flows(*k.at, q)) { wfo.insert(q); }
        }
        REQUIRE_THAT(std::multiset<P3>(wfo.begin(), wfo.end()) == fo, "outgoing data flow of node " << i << ": " << fo.size() << " vs " << wfo.size() << who);
        REQUIRE_THAT(std::multiset<P3>(wfou.begin(), wfou.end()) == fou, "outgoing data flow of node " << i << " without clocking" << who);
        REQUIRE_EQ(static_cast<std::size_t>(l.fanout_size(i)), wfo.size(), "fanout size" << who);
        REQUIRE_EQ(l.is_fanout(i), f == BUF && wfo.size() > 1, "is_fanout" << who);
        REQUIRE_EQ(l.has_no_incoming_signal(t), wfi.empty(), "has_no_incoming_signal" << who);
        REQUIRE_EQ(l.has_no_outgoing_signal(t), wfo.empty(), "has_no_outgoing_signal" << who);
        // iterating over neighbors: indices count up and a functor can end the iteration
        {
            const auto stop = c.below(4);
            std::size_t seen = 0;
            l.foreach_fanin(i, [&](const auto& s, const auto j)
            {
                REQUIRE_EQ(static_cast<std::size_t>(j), seen, "index of a fan-in" << who);
                REQUIRE_THAT(seen < wfi.size() && p3(static_cast<tile<Lyt>>(s)) == wfi[seen], "fan-in " << seen << who);
                ++seen;
                return seen <= stop;
            });
            REQUIRE_EQ(seen, std::size_t{std::min<std::size_t>(stop + 1, wfi.size())}, "fan-ins visited" << who);
            seen = 0;
            std::set<P3> met{};
            l.foreach_fanout(i, [&](const auto& o, const auto j)
            {
                REQUIRE_EQ(static_cast<std::size_t>(j), seen, "index of a fan-out" << who);
                REQUIRE_THAT(wfo.contains(p3(l.get_tile(o))) && met.insert(p3(l.get_tile(o))).second, "fan-out " << seen << who);
                ++seen;
                return seen <= stop;
            });
            REQUIRE_EQ(seen, std::size_t{std::min<std::size_t>(stop + 1, wfo.size())}, "fan-outs visited" << who);
        }
        // cardinal directions
        const auto [x, y, z] = *k.at;
        auto any = [&](const auto& s, const auto& d) { return std::any_of(s.begin(), s.end(), [&](const P3& q) { return std::get<0>(q) == static_cast<long>(d.x) && std::get<1>(q) == static_cast<long>(d.y); }); };
        REQUIRE_EQ(l.has_eastern_incoming_signal(t), any(wfi, l.east(t)), "signal from the east" << who);
        REQUIRE_EQ(l.has_western_incoming_signal(t), any(wfi, l.west(t)), "signal from the west" << who);
        REQUIRE_EQ(l.has_eastern_outgoing_signal(t), any(wfo, l.east(t)), "signal to the east" << who);
        REQUIRE_EQ(l.has_western_outgoing_signal(t), any(wfo, l.west(t)), "signal to the west" << who);
        bool opp = (any(wfi, l.east(t)) && any(wfo, l.west(t))) || (any(wfi, l.west(t)) && any(wfo, l.east(t)));
        if constexpr (std::is_same_v<Lyt, cart_t>)
        {
            REQUIRE_EQ(l.has_northern_incoming_signal(t), any(wfi, l.north(t)), "signal from the north" << who);
            REQUIRE_EQ(l.has_southern_incoming_signal(t), any(wfi, l.south(t)), "signal from the south" << who);
            REQUIRE_EQ(l.has_northern_outgoing_signal(t), any(wfo, l.north(t)), "signal to the north" << who);
            REQUIRE_EQ(l.has_southern_outgoing_signal(t), any(wfo, l.south(t)), "signal to the south" << who);
            opp |= (any(wfi, l.north(t)) && any(wfo, l.south(t))) || (any(wfi, l.south(t)) && any(wfo, l.north(t)));
        }
        else
        {
            REQUIRE_EQ(l.has_north_eastern_incoming_signal(t), any(wfi, l.north_east(t)), "signal from the north-east" << who);
            REQUIRE_EQ(l.has_north_western_incoming_signal(t), any(wfi, l.north_west(t)), "signal from the north-west" << who);
            REQUIRE_EQ(l.has_south_eastern_outgoing_signal(t), any(wfo, l.south_east(t)), "signal to the south-east" << who);
            REQUIRE_EQ(l.has_south_western_outgoing_signal(t), any(wfo, l.south_west(t)), "signal to the south-west" << who);
            opp |= (any(wfi, l.north_east(t)) && any(wfo, l.south_west(t))) || (any(wfi, l.south_west(t)) && any(wfo, l.north_east(t))) ||
                   (any(wfi, l.north_west(t)) && any(wfo, l.south_east(t))) || (any(wfi, l.south_east(t)) && any(wfo, l.north_west(t)));
        }
        REQUIRE_EQ(l.has_opposite_incoming_and_outgoing_signals(t), opp, "straight data flow through node " << i << who);
        // evaluation: the children carry random functions of three variables
        if (wfi.size() == k.vars && wfi.size() == k.kids.size())
        {
            std::vector<kitty::dynamic_truth_table> in{};
            std::vector<std::uint64_t>              w{};
            for (std::size_t j = 0; j < wfi.size(); ++j)
            {
                w.push_back(c.below(256));
                in.emplace_back(3u);
                kitty::create_from_words(in.back(), &w.back(), &w.back() + 1);
            }
            const auto r = l.compute(i, in.begin(), in.end());
            for (unsigned b = 0; b < 8; ++b)
            {
                unsigned          pat = 0;
                std::vector<bool> bits{};
                for (std::size_t j = 0; j < w.size(); ++j)
                {
                    pat |= static_cast<unsigned>((w[j] >> b) & 1u) << j;
                    bits.push_back(((w[j] >> b) & 1u) != 0);
                }
                const bool want = ((k.tt >> pat) & 1u) != 0;
                REQUIRE_EQ(kitty::get_bit(r, b) != 0, want, "value computed by node " << i << " (" << NAME[f] << ") for input pattern " << pat << who);
#ifndef NO_COMPUTE_BOOL
                REQUIRE_EQ(static_cast<bool>(l.compute(i, bits.begin(), bits.end())), want, "Boolean value computed by node " << i << " (" << NAME[f] << ") for input pattern " << pat << who);
#endif
            }
        }
    }
}

template <typename Lyt>
void history(pbt::ctx& c)
{
    const long X = c.in<long>(0, 4), Y = c.in<long>(0, 4), Z = c.flip() ? 1 : 0;
    std::vector<std::string> schemes{"2DDWAVE", "USE", "RES", "ROW", "COLUMNAR3", "ESR", "OPEN", "CFE"};
    const auto               sch = c.pick(schemes);
    c.note(std::is_same_v<Lyt, cart_t> ? "cartesian " : "hexagonal ", X, "x", Y, "x", Z, " ", sch);
    std::vector<pair_t<Lyt>> ls{};
    {
        model m{};
        m.n.resize(2);
        const auto cs = *get_clocking_scheme<Lyt>(sch);
        switch (c.below(3))
        {
            case 0: ls.push_back({Lyt{tl<Lyt>({X, Y, Z}), cs, "abc"}, m}); ls[0].m.name = "abc"; break;
            case 1:
            {
                ls.push_back({Lyt{tl<Lyt>({X, Y, Z})}, m});
                ls[0].l.replace_clocking_scheme(cs);
                break;
            }
            default:
            {
                // on top of an existing clocked layout
                using base = clocked_layout<std::conditional_t<std::is_same_v<Lyt, cart_t>, tile_based_layout<cartesian_layout<offset::ucoord_t>>, tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>>;
                c.note("from a clocked layout");
                ls.push_back({Lyt{base{tl<Lyt>({X, Y, Z}), cs}}, m});
            }
        }
    }
    auto any_tile = [&] { return P3{c.in<long>(0, X), c.in<long>(0, Y), c.in<long>(0, Z)}; };
    const int steps = c.in<int>(1, 24);
    bool      removed = false;
    for (int st = 0; st < steps; ++st)
    {
        const auto k = c.below(ls.size());
        auto&      l = ls[k].l;
        auto&      m = ls[k].m;
        const std::string who = " in layout " + std::to_string(k);
        // a child signal: mostly a placed neighbour
        auto kid = [&](const std::optional<P3>& near) -> P3
        {
            std::vector<P3> cand{};
            for (const auto& [q, n] : m.tiles)
            {
                if (!near || adjacent_elev(l, *near, q)) { cand.push_back(q); }
            }
            if (near && X + Y + Z == 0) { return {0, 0, 1}; }
            if (cand.empty() || c.chance(1, 8))
            {
                const auto q = any_tile();
                return near == q ? P3{std::get<0>(q), std::get<1>(q) + 1, std::get<2>(q)} : q;
            }
            return c.pick(cand);
        };
        switch (c.below(14))
        {
            case 0:
            {
                const auto t  = any_tile();
                const auto nm = c.flip() ? std::string{} : "i" + std::to_string(c.below(3));
                c.note("pi '", nm, "' at ", s3(t), who);
                l.create_pi(nm, tl<Lyt>(t));
                mnode nn{BUF, TT[BUF], 1, {}, {}, nm.empty() ? "pi" + std::to_string(m.pis.size() + 1) : nm};
                removed |= m.at(t) != 0;
                m.pis.push_back(m.put(nn, t));
                break;
            }
            case 1:
            {
                const auto t  = any_tile();
                const auto nm = c.flip() ? std::string{} : "o" + std::to_string(c.below(3));
                const auto s  = kid(t);
                c.note("po '", nm, "' of ", s3(s), " at ", s3(t), who);
                l.create_po(sg<Lyt>(s), nm, tl<Lyt>(t));
                const bool was = std::find(m.pos.begin(), m.pos.end(), t) != m.pos.end();
                mnode      nn{BUF, TT[BUF], 1, {s}, {}, {}};
                removed |= m.at(t) != 0;
                nn.name = nm;
                const auto i = m.put(nn, t);
                m.pos.push_back(t);
                if (nm.empty())
                {
                    m.n[i].name = l.get_name(i);  // which number an unnamed output gets when it replaces another one, is left open
                    if (!was) { REQUIRE_EQ(m.n[i].name, "po" + std::to_string(m.pos.size()), "default name of an output"); }
                }
                break;
            }
            case 2:
            case 3:
            case 4:
            case 5:
            {
                const auto t = any_tile();
                const auto f = static_cast<fun>(c.below(14));
                mnode      nn{};
                nn.f    = f;
                nn.vars = f == OTHER ? static_cast<unsigned>(c.in<int>(1, 3)) : ARITY[f];
                nn.tt   = TT[f];
                if (f == OTHER)
                {
                    nn.tt = c.below(1ull << (1u << nn.vars));
                    // no constants: they are not functions of a node; the known functions are recognized
                    for (unsigned g = 0; g < OTHER; ++g)
                    {
                        if (ARITY[g] == nn.vars && TT[g] == nn.tt) { nn.f = static_cast<fun>(g); }
                    }
                }
                std::vector<typename Lyt::signal> ch{};
                for (unsigned i = 0; i < nn.vars; ++i)
                {
                    nn.kids.push_back(kid(t));
                    ch.push_back(sg<Lyt>(nn.kids.back()));
                }
                std::string ks{};
                for (const auto& q : nn.kids) { ks += s3(q); }
                c.note(NAME[f], " of ", ks, " at ", s3(t), " tt ", nn.tt, who);
                removed |= m.at(t) != 0;
                const auto tt = tl<Lyt>(t);
                typename Lyt::signal r{};
                switch (f)
                {
                    case BUF: r = l.create_buf(ch[0], tt); break;
                    case NOT: r = l.create_not(ch[0], tt); break;
                    case AND: r = l.create_and(ch[0], ch[1], tt); break;
                    case NAND: r = l.create_nand(ch[0], ch[1], tt); break;
                    case OR: r = l.create_or(ch[0], ch[1], tt); break;
                    case NOR: r = l.create_nor(ch[0], ch[1], tt); break;
                    case LT: r = l.create_lt(ch[0], ch[1], tt); break;
                    case GE: r = l.create_ge(ch[0], ch[1], tt); break;
                    case GT: r = l.create_gt(ch[0], ch[1], tt); break;
                    case LE: r = l.create_le(ch[0], ch[1], tt); break;
                    case XOR: r = l.create_xor(ch[0], ch[1], tt); break;
                    case XNOR: r = l.create_xnor(ch[0], ch[1], tt); break;
                    case MAJ: r = l.create_maj(ch[0], ch[1], ch[2], tt); break;
                    default:
                    {
                        kitty::dynamic_truth_table fn(nn.vars);
                        kitty::create_from_words(fn, &nn.tt, &nn.tt + 1);
                        r = l.create_node(ch, fn, tt);
                    }
                }
                REQUIRE_EQ(r, sg<Lyt>(t), "the signal of a new node is its tile");
                m.put(nn, t);
                break;
            }
            case 6:
            {
                const auto t = any_tile();
                c.note("clear ", s3(t), who);
                removed |= m.at(t) != 0;
                l.clear_tile(tl<Lyt>(t));
                m.clear(t);
                break;
            }
            case 7:
            case 8:
            case 9:
            {
                if (m.n.size() <= 2) { break; }
                const auto i = static_cast<std::uint32_t>(c.in<std::size_t>(2, m.n.size() - 1));
                const auto t = c.chance(1, 4) && m.n[i].at ? *m.n[i].at : any_tile();
                std::vector<P3>                   ks{};
                std::vector<typename Lyt::signal> ch{};
                const auto                        nk = c.below(4);
                std::string                       str{};
                for (std::size_t j = 0; j < nk; ++j)
                {
                    ks.push_back(kid(t));
                    ch.push_back(sg<Lyt>(ks.back()));
                    str += s3(ks.back());
                }
                c.note("move node ", i, " to ", s3(t), " children ", str, who);
                removed = true;
                const auto r = l.move_node(i, tl<Lyt>(t), ch);
                REQUIRE_EQ(r, sg<Lyt>(t), "move_node returns the new tile's signal");
                auto& nn = m.n[i];
                nn.kids  = ks;
                if (nn.at != t)
                {
                    const auto old = nn.at;
                    m.clear(t);
                    if (old)
                    {
                        m.tiles.erase(*old);
                        std::replace(m.pos.begin(), m.pos.end(), *old, t);
                    }
                    m.tiles[t] = i;
                    nn.at      = t;
                    nn.dead    = false;
                }
                break;
            }
            case 10:
            {
                if (m.tiles.empty()) { break; }
                const auto [t, i] = c.pick(m.tiles);
                const auto s      = kid(t);
                c.note("connect ", s3(s), " to ", s3(t), who);
                REQUIRE_EQ(l.connect(sg<Lyt>(s), i), sg<Lyt>(t), "connect returns the node's signal");
                m.n[i].kids.push_back(s);
                break;
            }
            case 11:
            {
                if (m.n.size() <= 2) { break; }
                const auto i  = static_cast<std::uint32_t>(c.in<std::size_t>(2, m.n.size() - 1));
                const auto nm = "n" + std::to_string(c.below(4));
                const auto how = c.below(4);
                if (how == 0) { l.set_name(static_cast<typename Lyt::node>(i), nm); m.n[i].name = nm; }
                else if (how == 1 && !m.pis.empty()) { const auto j = c.below(m.pis.size()); l.set_input_name(static_cast<std::uint32_t>(j), nm); m.n[m.pis[j]].name = nm; }
                else if (how == 2 && !m.pos.empty()) { const auto j = c.below(m.pos.size()); l.set_output_name(static_cast<std::uint32_t>(j), nm); m.n[m.at(m.pos[j])].name = nm; }
                else { l.set_layout_name(nm); m.name = nm; }
                c.note("name ", nm, " (", how, ")", who);
                break;
            }
            case 12:
            {
                if (c.flip() && m.n.size() > 2)
                {
                    const auto i = static_cast<std::uint32_t>(c.in<std::size_t>(2, m.n.size() - 1));
                    const auto v = static_cast<std::uint32_t>(c.below(9));
                    l.set_value(i, v);
                    REQUIRE_EQ(static_cast<std::uint32_t>(l.incr_value(i)), v, "incr_value returns the old value");
                    REQUIRE_EQ(static_cast<std::uint32_t>(l.decr_value(i)), v, "decr_value returns the new value");
                    l.set_visited(i, v + 1);
                    REQUIRE_EQ(static_cast<std::uint32_t>(l.visited(i)), v + 1, "visited");
                    m.n[i].value = v;
                    c.note("value of ", i, " = ", v, who);
                }
                else
                {
                    l.clear_values();
                    for (auto& q : m.n) { q.value = 0; }
                    l.clear_visited();
                    c.note("clear values", who);
                }
                break;
            }
            default:
            {
                if (ls.size() >= 2) { break; }
                c.note("clone");
                auto cl = l.clone();
                auto cm = m;
                ls.push_back({std::move(cl), std::move(cm)});
            }
        }
        for (std::size_t j = 0; j < ls.size(); ++j)
        {
            if (j == k || st + 1 == steps) { compare(c, ls[j], X, Y, Z, " in layout " + std::to_string(j)); }
        }
        c.nontrivial(removed && ls[k].m.tiles.size() > 2);
    }
}
PBT("history.cartesian", 16000, 160000, "tiles were cleared, moved or overwritten, with more than two left") { history<cart_t>(c); }
PBT("history.hexagonal", 8000, 80000, "tiles were cleared, moved or overwritten, with more than two left") { history<hex_t>(c); }
