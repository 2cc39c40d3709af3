// P39: exact physical design and SAT-based clock number assignment
#include "grown_common.hpp"
#include "pd_common.hpp"

#include <fiction/algorithms/physical_design/determine_clocking.hpp>
#include <fiction/algorithms/physical_design/exact.hpp>
#include <fiction/technology/sidb_surface_analysis.hpp>

#include <chrono>

using namespace fiction;
using namespace pd;
using grown::what;

namespace
{
/// arrival time (in clock phases) of every gate; false if two fan-ins of a gate arrive in different cycles
template <typename Clk>
bool balanced(const grown::circuit& k, const Clk& clk)
{
    std::vector<long> a(k.g.size());
    for (std::size_t i = 0; i < k.g.size(); ++i)
    {
        const auto& n = k.g[i];
        if (n.w == what::PI)
        {
            a[i] = clk(n.pos);
            continue;
        }
        a[i] = a[static_cast<std::size_t>(n.in[0])] + 1;
        for (const auto j : n.in)
        {
            if (a[static_cast<std::size_t>(j)] + 1 != a[i]) { return false; }
        }
    }
    return true;
}
/// the same for a finished layout
template <typename Lyt>
void require_balanced(const Lyt& l)
{
    std::map<P3, long>                    a{};
    const std::function<long(const P3&)> at = [&](const P3& p) -> long
    {
        if (const auto it = a.find(p); it != a.end()) { return it->second; }
        const auto n = l.get_node(tl<Lyt>(p));
        long       r = -1;
        if (l.is_pi(n)) { r = l.get_clock_number(tl<Lyt>(p)); }
        else
        {
            l.foreach_fanin(n, [&](const auto& f)
            {
                const auto v = at(p3(static_cast<tile<Lyt>>(f))) + 1;
                REQUIRE_THAT(r < 0 || v == r, "signals arrive at " << s3(p) << " after " << r << " and " << v << " phases");
                r = v;
            });
        }
        a[p] = r;
        return r;
    };
    l.foreach_po([&](const auto& f) { (void)at(p3(static_cast<tile<Lyt>>(f))); });
}

struct found
{
    net::word mask{};
    std::vector<net::word> outs{};
};

/// the network a circuit implements: wires and fan-outs vanish
tec_t network_of(const grown::circuit& k)
{
    tec_t                                  n{};
    std::vector<mockturtle::signal<tec_t>> s{};
    for (const auto& g : k.g)
    {
        const auto a = [&](const std::size_t i) { return s[static_cast<std::size_t>(g.in[i])]; };
        switch (g.w)
        {
            case what::PI: s.push_back(n.create_pi(g.name)); break;
            case what::PO: n.create_po(a(0), g.name); s.push_back(a(0)); break;
            case what::BUF: s.push_back(a(0)); break;
            case what::NOT: s.push_back(n.create_not(a(0))); break;
            case what::AND: s.push_back(n.create_and(a(0), a(1))); break;
            case what::OR: s.push_back(n.create_or(a(0), a(1))); break;
            case what::NAND: s.push_back(n.create_nand(a(0), a(1))); break;
            case what::NOR: s.push_back(n.create_nor(a(0), a(1))); break;
            case what::XOR: s.push_back(n.create_xor(a(0), a(1))); break;
            case what::XNOR: s.push_back(n.create_xnor(a(0), a(1))); break;
            case what::LT: s.push_back(n.create_lt(a(0), a(1))); break;
            case what::MAJ: s.push_back(n.create_maj(a(0), a(1), a(2))); break;
        }
    }
    return n;
}
std::vector<net::word> outputs_of(const grown::circuit& k)
{
    std::vector<net::word> r(k.pos, 0);
    for (std::uint64_t p = 0; p < (1ull << k.pis); ++p)
    {
        const auto  v = k.run(p);
        std::size_t o = 0;
        for (std::size_t i = 0; i < k.g.size(); ++i)
        {
            if (k.g[i].w == what::PO) { r[o++] |= static_cast<net::word>(v[i]) << p; }
        }
    }
    return r;
}
/// the gate or input that drives gate i's k-th fan-in, looking through wires and fan-outs
int source(const grown::circuit& k, int i)
{
    while (k.g[static_cast<std::size_t>(i)].w == what::BUF) { i = k.g[static_cast<std::size_t>(i)].in[0]; }
    return i;
}
/// does the circuit have the structure exact looks for: one fan-out tile per driver with several readers, no gate with
/// the same driver twice, no two gates that structural hashing would merge
bool canonical(const grown::circuit& k)
{
    std::set<std::pair<int, std::vector<int>>> seen{};
    for (std::size_t i = 0; i < k.g.size(); ++i)
    {
        const auto& n = k.g[i];
        if (n.w == what::PI || n.w == what::BUF || n.w == what::PO)
        {
            if (n.w == what::BUF && n.out.size() > 1)
            {
                // every way to the driver passes simple wires only
                int j = n.in[0];
                while (k.g[static_cast<std::size_t>(j)].w == what::BUF)
                {
                    if (k.g[static_cast<std::size_t>(j)].out.size() > 1) { return false; }
                    j = k.g[static_cast<std::size_t>(j)].in[0];
                }
            }
            continue;
        }
        std::vector<int> in{};
        for (const auto j : n.in) { in.push_back(source(k, j)); }
        std::sort(in.begin(), in.end());
        if (std::adjacent_find(in.begin(), in.end()) != in.end()) { return false; }
        if (!seen.insert({static_cast<int>(n.w), in}).second) { return false; }
    }
    return true;
}
template <typename Lyt>
bool straight(const Lyt& l, const P3& in, const P3& p, const P3& out)
{
    bool ok = false;
    l.foreach_adjacent_opposite_tiles(tl<Lyt>(ground(p)), [&](const auto& ts)
    {
        const auto a = ground(p3(ts.first)), b = ground(p3(ts.second));
        ok |= (a == ground(in) && b == ground(out)) || (b == ground(in) && a == ground(out));
    });
    return ok;
}
bool border(const P3& p, const long X, const long Y) { return std::get<0>(p) == 0 || std::get<1>(p) == 0 || std::get<0>(p) == X || std::get<1>(p) == Y; }

struct task
{
    exact_physical_design_params ps{};
    bool                         linear_rows{}, linear_columns{};
};
template <typename Lyt>
void check_result(const Lyt& l, const task& t, const tec_t& n, const std::vector<net::word>& want, const exact_physical_design_stats& st)
{
    const auto cs = *get_clocking_scheme<Lyt>(t.ps.scheme);
    rules      r{};
    r.border_pis = r.border_pos = t.ps.border_io;
    r.wire_fanouts               = static_cast<unsigned>(cs.max_out_degree);
    check_tiles(l, r);
    REQUIRE_EQ(l.num_pis(), n.num_pis(), "number of inputs");
    REQUIRE_EQ(l.num_pos(), n.num_pos(), "number of outputs");
    const auto got = function_of(l);
    for (std::size_t i = 0; i < got.size(); ++i) { REQUIRE_EQ(got[i] & net::mask(static_cast<unsigned>(n.num_pis())), want[i] & net::mask(static_cast<unsigned>(n.num_pis())), "output " << i << " computes its function"); }
    std::vector<std::string> names{};
    n.foreach_pi([&](const auto& p) { names.push_back(n.has_name(n.make_signal(p)) ? n.get_name(n.make_signal(p)) : ""); });
    std::size_t i = 0;
    l.foreach_pi([&](const auto& p)
    {
        if (!names[i].empty()) { REQUIRE_EQ(l.get_name(l.make_signal(p)), names[i], "name of input " << i); }
        ++i;
    });
    for (unsigned k = 0; k < n.num_pos(); ++k) { if (!n.has_output_name(k)) { continue; } REQUIRE_EQ(l.get_output_name(k), n.get_output_name(k), "name of output " << k); }
    const auto w = static_cast<std::uint64_t>(l.x()) + 1, h = static_cast<std::uint64_t>(l.y()) + 1;
    REQUIRE_THAT(w * h <= t.ps.upper_bound_area && w <= t.ps.upper_bound_x && h <= t.ps.upper_bound_y, w << " x " << h << " exceeds the bounds");
    if (t.ps.fixed_size) { REQUIRE_EQ(w * h, static_cast<std::uint64_t>(t.ps.upper_bound_area), "fixed area"); }
    REQUIRE_EQ(st.x_size, w, "width reported");
    REQUIRE_EQ(st.y_size, h, "height reported");
    std::uint64_t gates = 0, wires = 0, crossings = 0;
    l.foreach_node([&](const auto& m)
    {
        if (l.is_constant(m)) { return; }
        const auto p = p3(l.get_tile(m));
        (l.is_buf(m) ? wires : gates)++;
        crossings += std::get<2>(p) != 0;
        l.foreach_fanin(m, [&](const auto& f)
        {
            const auto s = static_cast<tile<Lyt>>(f);
            REQUIRE_EQ((static_cast<int>(l.get_clock_number(s)) + 1) % static_cast<int>(l.num_clocks()), static_cast<int>(l.get_clock_number(l.get_tile(m))), "clock zone after " << s3(p3(s)));
        });
        if (t.ps.straight_inverters && l.is_inv(m))
        {
            P3 a{}, b{};
            l.foreach_fanin(m, [&](const auto& f) { a = p3(static_cast<tile<Lyt>>(f)); });
            l.foreach_fanout(m, [&](const auto& o) { b = p3(l.get_tile(o)); });
            REQUIRE_THAT(straight(l, a, p, b), "a bent inverter at " << s3(p));
        }
    });
    REQUIRE_EQ(st.num_gates, gates, "gates reported");
    REQUIRE_EQ(st.num_wires, wires, "wires reported");
    REQUIRE_EQ(st.num_crossings, crossings, "crossings reported");
    if (!t.ps.crossings) { REQUIRE_EQ(crossings, 0u, "crossings although not allowed"); }
    if (t.ps.border_io)
    {
        const auto X = static_cast<long>(l.x()), Y = static_cast<long>(l.y());
        l.foreach_pi([&](const auto& p)
        {
            const auto q = p3(l.get_tile(p));
            REQUIRE_THAT(!t.linear_columns || std::get<0>(q) == 0, "an input is not in the first column");
            REQUIRE_THAT(!t.linear_rows || std::get<1>(q) == 0, "an input is not in the first row");
        });
        l.foreach_po([&](const auto& f)
        {
            const auto q = p3(static_cast<tile<Lyt>>(f));
            REQUIRE_THAT(!t.linear_columns || std::get<0>(q) == X, "an output is not in the last column");
            REQUIRE_THAT(!t.linear_rows || std::get<1>(q) == Y, "an output is not in the last row");
        });
    }
    REQUIRE_THAT(l.is_clocking_scheme(cs.name), "clocking scheme " << l.get_clocking_scheme().name);
    REQUIRE_EQ(static_cast<int>(l.num_clocks()), static_cast<int>(cs.num_clocks), "number of clocks");
    if (!t.ps.desynchronize) { require_balanced(l); }
    REQUIRE_EQ(drvs(l).drvs, 0u, "design rule violations");
}
template <typename Lyt>
std::string picture(const Lyt& l)
{
    std::string s{};
    l.foreach_node([&](const auto& n) { if (!l.is_constant(n)) { s += s3(p3(l.get_tile(n))) + " "; } });
    return s;
}

/// tiles that certain gates may not use
struct bans
{
    struct ban
    {
        P3                  t{};
        what                w{};  // BUF, NOT, AND, OR, XOR
        std::vector<int>    in{}, out{};  // indices into DIRS; no restriction to an orientation if empty
    };
    std::vector<ban> b{};
};
using card = port_direction::cardinal;
constexpr std::array<card, 8> DIRS{card::NORTH, card::EAST, card::SOUTH, card::WEST, card::NORTH_EAST, card::SOUTH_EAST, card::SOUTH_WEST, card::NORTH_WEST};
kitty::dynamic_truth_table table_of(const what w)
{
    switch (w)
    {
        case what::NOT: return create_not_tt();
        case what::AND: return create_and_tt();
        case what::OR: return create_or_tt();
        case what::XOR: return create_xor_tt();
        default: return create_id_tt();
    }
}
/// -1 for the tile itself (there is no such neighbor)
template <typename Lyt>
P3 neighbor(const Lyt& l, const P3& p, const int d)
{
    const auto t = tl<Lyt>(ground(p));
    switch (d)
    {
        case 0: return p3(l.north(t));
        case 1: return p3(l.east(t));
        case 2: return p3(l.south(t));
        case 3: return p3(l.west(t));
        case 4: return p3(l.north_east(t));
        case 5: return p3(l.south_east(t));
        case 6: return p3(l.south_west(t));
        default: return p3(l.north_west(t));
    }
}
template <typename Lyt>
surface_black_list<Lyt, port_direction> black_list_of(const bans& b)
{
    surface_black_list<Lyt, port_direction> r{};
    for (const auto& x : b.b)
    {
        auto& v = r[tl<Lyt>(x.t)][table_of(x.w)];
        if (x.in.empty() && x.out.empty()) { continue; }
        port_list<port_direction> l{};
        for (const auto d : x.in) { l.inp.insert(port_direction(DIRS[static_cast<std::size_t>(d)])); }
        for (const auto d : x.out) { l.out.insert(port_direction(DIRS[static_cast<std::size_t>(d)])); }
        v.push_back(l);
    }
    return r;
}
struct witness
{
    grown::circuit k{};
    long           X{}, Y{};
};
std::string scheme_of(pbt::ctx& c, const bool hex) { return hex ? c.pick(std::vector<std::string>{"ROW", "COLUMNAR", "ROW3", "COLUMNAR3", "2DDWAVEHEX"}) : c.pick(std::vector<std::string>{"2DDWAVE", "2DDWAVE", "USE", "RES", "ESR", "CFE", "SRS", "RIPPLE", "BANCS", "ROW", "COLUMNAR", "2DDWAVE3", "ROW3", "COLUMNAR3"}); }
template <typename Lyt>
bool is_named(const std::string& s, const char* n) { return get_clocking_scheme<Lyt>(s)->name == std::string_view(n); }

/// a small circuit that is placed and routed already
template <typename Lyt>
witness grow_witness(pbt::ctx& c, const std::string& scheme, const bool crossings, const std::uint64_t area)
{
    const auto cs = *get_clocking_scheme<Lyt>(scheme);
    for (int tries = 0; tries < 12; ++tries)
    {
        const auto w = 1 + static_cast<long>(c.below(4)), h = 1 + static_cast<long>(c.below(4));
        if (static_cast<std::uint64_t>(w * h) > area) { continue; }
        const Lyt    l{{static_cast<int>(w - 1), static_cast<int>(h - 1), 1}, cs};
        grown::rules r{};
        r.two       = {what::AND, what::OR, what::XOR, what::NAND, what::LT};
        r.fanout    = static_cast<int>(cs.max_out_degree);
        r.crossings = crossings;
        if (cs.max_in_degree < 3) { r.three.clear(); }
        if (cs.max_in_degree < 2) { r.two.clear(); }
        witness x{grown::grow(c, l, r), 0, 0};
        if (x.k.pos == 0 || x.k.pis == 0 || !canonical(x.k)) { continue; }
        if (tries < 9 && std::none_of(x.k.g.begin(), x.k.g.end(), [](const auto& n) { return n.w != what::PI && n.w != what::PO && n.w != what::BUF; })) { continue; }
        for (const auto& n : x.k.g) { x.X = std::max(x.X, std::get<0>(n.pos)), x.Y = std::max(x.Y, std::get<1>(n.pos)); }
        return x;
    }
    throw pbt::discard{};
}

template <typename Lyt>
void witness_case(pbt::ctx& c, const bool hex)
{
    task t{};
    t.ps.scheme          = scheme_of(c, hex);
    const bool open      = c.below(6) == 0;
    const bool crossings = c.flip();
    auto       w         = grow_witness<Lyt>(c, t.ps.scheme, crossings, open ? 6 : 12);
    const auto cs        = *get_clocking_scheme<Lyt>(t.ps.scheme);
    const Lyt  frame{{static_cast<int>(w.X), static_cast<int>(w.Y), 1}, cs};
    const auto name = t.ps.scheme;
    t.linear_columns = is_named<Lyt>(name, "COLUMNAR"), t.linear_rows = is_named<Lyt>(name, "ROW");
    // the options the circuit at hand satisfies
    bool at_border = true, bent = false;
    for (const auto& n : w.k.g)
    {
        if (n.w == what::PI) { at_border &= t.linear_columns && !open ? std::get<0>(n.pos) == 0 : t.linear_rows && !open ? std::get<1>(n.pos) == 0 : border(n.pos, w.X, w.Y); }
        if (n.w == what::PO) { at_border &= t.linear_columns && !open ? std::get<0>(n.pos) == w.X : t.linear_rows && !open ? std::get<1>(n.pos) == w.Y : border(n.pos, w.X, w.Y); }
        if (n.w == what::NOT) { bent |= !straight(frame, w.k.g[static_cast<std::size_t>(n.in[0])].pos, n.pos, w.k.g[static_cast<std::size_t>(n.out[0])].pos); }
    }
    const bool even = balanced(w.k, [&](const P3& p) { return static_cast<long>(frame.get_clock_number(tl<Lyt>(p))); });
    t.ps.crossings          = crossings;
    t.ps.border_io          = at_border && c.flip();
    t.ps.straight_inverters = !bent && c.flip();
    t.ps.desynchronize      = !even || c.below(4) == 0;
    t.ps.minimize_wires     = c.below(5) == 0;
    t.ps.minimize_crossings = c.below(5) == 0;
    t.ps.timeout            = 8000;
    if (open) { t.ps.scheme = cs.num_clocks == 3 ? "OPEN3" : "OPEN4", t.linear_columns = t.linear_rows = false; }
    const auto area = static_cast<std::uint64_t>((w.X + 1) * (w.Y + 1));
    // bounds that still admit the circuit at hand
    if (c.below(3) == 0) { t.ps.upper_bound_area = static_cast<std::uint16_t>(area + c.below(4)); }
    if (c.below(4) == 0) { t.ps.upper_bound_x = static_cast<std::uint16_t>(static_cast<std::uint64_t>(w.X) + 1 + c.below(3)); }
    if (c.below(4) == 0) { t.ps.upper_bound_y = static_cast<std::uint16_t>(static_cast<std::uint64_t>(w.Y) + 1 + c.below(3)); }
    const auto n = network_of(w.k);
    std::size_t gates = 0;
    for (const auto& g : w.k.g) { gates += g.w != what::PI && g.w != what::PO && g.w != what::BUF; }
    REQUIRE_EQ(static_cast<std::size_t>(n.num_gates()), gates, "gates of the generated network");
    const bool fixed = c.below(6) == 0;
    if (fixed) { t.ps.fixed_size = true, t.ps.upper_bound_area = static_cast<std::uint16_t>(area); }
    c.note(std::string(hex ? "hexagonal " : "") + t.ps.scheme + (t.ps.crossings ? " crossings" : "") + (t.ps.border_io ? " border" : "") + (t.ps.straight_inverters ? " straight" : "") + (t.ps.desynchronize ? " desynchronized" : "") + (fixed ? " fixed" : "") + (t.ps.minimize_wires ? " min-wires" : "") + (t.ps.minimize_crossings ? " min-crossings" : "") + " bounds " + std::to_string(t.ps.upper_bound_area) + "," + std::to_string(t.ps.upper_bound_x) + "," + std::to_string(t.ps.upper_bound_y) + ": " + w.k.show());
    c.nontrivial(gates > 0);
    c.label(open ? std::string{"OPEN"} : std::string{cs.name});
    // gates that some tiles cannot hold, none of which the circuit at hand uses
    bans       b{};
    const bool banned = c.below(3) == 0;
    if (banned)
    {
        std::map<P3, std::set<P3>>    ins{}, outs{};
        std::map<P3, std::set<what>> kinds{};
        for (const auto& g : w.k.g)
        {
            const auto q = ground(g.pos);
            kinds[q].insert(g.w == what::PI || g.w == what::PO ? what::BUF : g.w);
            for (const auto j : g.in) { ins[q].insert(ground(w.k.g[static_cast<std::size_t>(j)].pos)); }
            for (const auto j : g.out) { outs[q].insert(ground(w.k.g[static_cast<std::size_t>(j)].pos)); }
        }
        for (auto i = 1 + c.below(6); i > 0; --i)
        {
            bans::ban x{{static_cast<long>(c.below(static_cast<std::uint64_t>(w.X) + 2)), static_cast<long>(c.below(static_cast<std::uint64_t>(w.Y) + 2)), 0}, c.pick(std::vector<what>{what::BUF, what::BUF, what::NOT, what::AND, what::OR, what::XOR}), {}, {}};
            const bool always = c.below(3) == 0;
            if (!always)
            {
                std::vector<int> d{0, 1, 2, 3};
                if (hex) { d = {4, 5, 6, 7}; d.push_back(0), d.push_back(1), d.push_back(2), d.push_back(3); }
                c.shuffle(d);
                const auto k = x.w == what::BUF || x.w == what::NOT ? 1u : 2u;
                x.in.assign(d.begin(), d.begin() + k);
                x.out.assign(d.begin() + k, d.begin() + k + 1);
                if (hex)
                {
                    // only directions that exist on this kind of layout
                    const auto far = std::any_of(x.in.begin(), x.in.end(), [&](const int e) { return neighbor(frame, x.t, e) == x.t; });
                    if (far) { continue; }
                }
            }
            bool uses = kinds[x.t].contains(x.w);
            for (const auto e : x.in) { uses = uses && ins[x.t].contains(neighbor(frame, x.t, e)); }
            for (const auto e : x.out) { uses = uses && outs[x.t].contains(neighbor(frame, x.t, e)); }
            // an orientation is only a restriction if the gate is not excluded altogether
            for (const auto& y : b.b) { uses = uses || (y.t == x.t && y.w == x.w && (always || y.in.empty())); }
            if (uses) { continue; }
            std::string str = " banned:" + s3(x.t) + std::to_string(static_cast<int>(x.w));
            for (const auto e : x.in) { str += " i" + std::to_string(e); }
            for (const auto e : x.out) { str += " o" + std::to_string(e); }
            c.note(str);
            b.b.push_back(x);
        }
        c.label(b.b.empty() ? "no ban" : "bans");
    }
    exact_physical_design_stats st{};
    const auto                  start = std::chrono::steady_clock::now();
    const auto                  l     = banned ? exact_with_blacklist<Lyt>(n, black_list_of<Lyt>(b), t.ps, &st) : exact<Lyt>(n, t.ps, &st);
    if (!l)
    {
        if (std::chrono::steady_clock::now() - start > std::chrono::milliseconds(4000)) { throw pbt::discard{}; }
        c.fail("no layout found although one of " + std::to_string(w.X + 1) + " x " + std::to_string(w.Y + 1) + " tiles exists");
    }
    check_result(*l, t, n, outputs_of(w.k), st);
    for (const auto& x : b.b)
    {
        for (long z = 0; z <= 1; ++z)
        {
            const auto q = tl<Lyt>({std::get<0>(x.t), std::get<1>(x.t), z});
            if (static_cast<long>(l->x()) < std::get<0>(x.t) || static_cast<long>(l->y()) < std::get<1>(x.t) || l->is_empty_tile(q)) { continue; }
            const auto m = l->get_node(q);
            if (!(l->node_function(m) == table_of(x.w)) || l->is_pi(m) || l->is_po(m)) { continue; }
            std::set<P3> in{}, out{}, bi{}, bo{};
            l->foreach_fanin(m, [&](const auto& f) { in.insert(ground(p3(static_cast<tile<Lyt>>(f)))); });
            l->foreach_fanout(m, [&](const auto& f) { out.insert(ground(p3(l->get_tile(f)))); });
            for (const auto e : x.in) { bi.insert(neighbor(*l, x.t, e)); }
            for (const auto e : x.out) { bo.insert(neighbor(*l, x.t, e)); }
            REQUIRE_THAT(!x.in.empty() && (in != bi || out != bo), "the tile " << s3(x.t) << " holds a gate it must not");
        }
    }
    const auto got = (static_cast<std::uint64_t>(l->x()) + 1) * (static_cast<std::uint64_t>(l->y()) + 1);
    REQUIRE_THAT(got <= area, "a layout of " << got << " tiles is not minimal: one of " << area << " exists");
    // the minimum of crossings and wires for the same size
    if (got == area && static_cast<long>(l->x()) == w.X && static_cast<long>(l->y()) == w.Y)
    {
        std::uint64_t cr = 0, wi = 0;
        l->foreach_node([&](const auto& m)
        {
            if (l->is_constant(m)) { return; }
            cr += std::get<2>(p3(l->get_tile(m))) != 0;
            wi += l->is_buf(m);
        });
        std::uint64_t wires = 0;
        for (const auto& g : w.k.g) { wires += g.w == what::BUF || g.w == what::PI || g.w == what::PO; }
        if (t.ps.minimize_crossings && !t.ps.minimize_wires) { REQUIRE_THAT(cr <= w.k.crossings, cr << " crossings although " << w.k.crossings << " suffice"); }
        if (t.ps.minimize_wires && !t.ps.minimize_crossings) { REQUIRE_THAT(wi <= wires, wi << " wires although " << wires << " suffice"); }
    }
}
}  // namespace

PBT("exact-minimal", 160, 6000, "the circuit contains a gate")
{
    if (c.below(3)) { witness_case<cart_t>(c, false); }
    else if (c.flip()) { witness_case<hexr_t>(c, true); }
    else { witness_case<hexc_t>(c, true); }
}

PBT("exact-networks", 60, 2500, "a layout was found for a network with a gate")
{
    net::opts o{};
    o.max_gates  = 3;
    o.max_pis    = 3;
    o.max_pos    = 2;
    o.ternary    = false;
    o.unary      = false;
    o.constants  = false;
    o.const_po   = false;
    o.dangling   = false;
    o.duplicates = false;
    const auto m = net::random_network<tec_t>(c, o);
    task       t{};
    t.ps.scheme             = c.below(6) == 0 ? "OPEN4" : scheme_of(c, false);
    t.linear_columns        = is_named<cart_t>(t.ps.scheme, "COLUMNAR");
    t.linear_rows           = is_named<cart_t>(t.ps.scheme, "ROW");
    t.ps.crossings          = c.flip();
    t.ps.border_io          = c.flip();
    t.ps.desynchronize      = c.flip();
    t.ps.straight_inverters = c.flip();
    t.ps.upper_bound_area   = static_cast<std::uint16_t>(4 + c.below(t.ps.scheme == "OPEN4" ? 6 : 12));
    t.ps.timeout            = 6000;
    c.note(t.ps.scheme, t.ps.crossings ? " crossings" : "", t.ps.border_io ? " border" : "", t.ps.desynchronize ? " desynchronized" : "", " area ", t.ps.upper_bound_area);
    exact_physical_design_stats st{};
    const auto                  l = exact<cart_t>(m.ntk, t.ps, &st);
    c.nontrivial(l.has_value() && m.ntk.num_gates() > 0);
    if (!l) { return; }
    check_result(*l, t, m.ntk, m.m.outputs(), st);
}

/// determine_clocking finds a clock assignment exactly if one exists
namespace
{
template <typename Lyt>
void clocks_case(pbt::ctx& c)
{
    const long X = static_cast<long>(c.below(6)), Y = static_cast<long>(c.below(6));
    const bool three = c.flip();
    Lyt        l{{static_cast<int>(X), static_cast<int>(Y), 1}, c.flip() ? *get_clocking_scheme<Lyt>(three ? "OPEN3" : "OPEN4") : *get_clocking_scheme<Lyt>(three ? "ROW3" : c.flip() ? "ROW" : "COLUMNAR")};
    const auto n = static_cast<long>(l.num_clocks());
    // half of the circuits follow a clocking scheme, in which case there is an assignment
    const auto sch  = *get_clocking_scheme<Lyt>(three ? "2DDWAVE3" : "USE");
    const auto any  = c.below(3) == 0;
    const auto mode = c.below(2);
    const Lyt  guide{{static_cast<int>(X), static_cast<int>(Y), 1}, mode ? sch : *get_clocking_scheme<Lyt>(three ? "ROW3" : "ROW")};
    const auto adjacent = [&](const P3& p)
    {
        std::vector<P3> v{};
        l.foreach_adjacent_tile(tl<Lyt>(p), [&](const auto& a) { v.push_back(ground(p3(a))); });
        return v;
    };
    grown::rules r{};
    r.two        = {what::AND, what::OR, what::XOR};
    const auto k = any ? grown::grow(c, X, Y, adjacent, adjacent, r) : grown::grow(c, guide, r);
    if (k.g.empty()) { throw pbt::discard{}; }
    grown::materialize(l, k);
    for (const auto& g : k.g)
    {
        if (l.is_regularly_clocked() || c.flip()) { continue; }
        l.assign_clock_number(tl<Lyt>(g.pos), static_cast<typename Lyt::clock_number_t>(c.below(static_cast<std::uint64_t>(n))));
    }
    // potentials modulo n over the ground positions
    std::map<P3, std::pair<P3, long>> up{};
    const std::function<std::pair<P3, long>(const P3&)> root = [&](const P3& p) -> std::pair<P3, long>
    {
        const auto it = up.find(p);
        if (it == up.end() || it->second.first == p) { return {p, 0}; }
        const auto [q, d] = root(it->second.first);
        return {q, d + it->second.second};
    };
    bool possible = true;
    for (const auto& g : k.g)
    {
        for (const auto j : g.in)
        {
            const auto a = ground(k.g[static_cast<std::size_t>(j)].pos), b = ground(g.pos);
            const auto [ra, da] = root(a);
            const auto [rb, db] = root(b);
            // clk(b) = clk(a) + 1
            if (ra == rb) { possible = possible && ((db - da - 1) % n + n) % n == 0; }
            else { up[rb] = {ra, da + 1 - db}; }
        }
    }
    c.note(std::to_string(n) + " clocks " + k.show());
    c.nontrivial(k.g.size() > 4);
    c.label(possible ? "possible" : "impossible");
    std::map<P3, int> before{};
    for (long z = 0; z <= 1; ++z)
    {
        for (long y = 0; y <= Y; ++y) { for (long x = 0; x <= X; ++x) { before[{x, y, z}] = l.get_clock_number(tl<Lyt>({x, y, z})); } }
    }
    determine_clocking_params ps{};
    ps.sat_engine = c.pick(std::vector<bill::solvers>{bill::solvers::ghack, bill::solvers::glucose_41, bill::solvers::bsat2, bill::solvers::maple, bill::solvers::bmcg});
    const auto ok = determine_clocking(l, ps);
    REQUIRE_EQ(ok, possible, "a clock assignment exists");
    for (const auto& g : k.g)
    {
        const auto t = tl<Lyt>(g.pos);
        REQUIRE_THAT(!l.is_constant(l.get_node(t)), "the node at " << s3(g.pos) << " is gone");
        if (!ok) { continue; }
        REQUIRE_EQ(static_cast<int>(l.get_clock_number(t)), static_cast<int>(l.get_clock_number(tl<Lyt>(ground(g.pos)))), "clock number of both layers at " << s3(g.pos));
        for (const auto j : g.in)
        {
            REQUIRE_EQ((static_cast<int>(l.get_clock_number(tl<Lyt>(k.g[static_cast<std::size_t>(j)].pos))) + 1) % static_cast<int>(n), static_cast<int>(l.get_clock_number(t)), "clock number of " << s3(g.pos) << " after " << s3(k.g[static_cast<std::size_t>(j)].pos));
        }
    }
    REQUIRE_EQ(static_cast<long>(l.num_clocks()), n, "number of clocks");
    if (!ok)
    {
        for (const auto& [p, v] : before) { REQUIRE_EQ(static_cast<int>(l.get_clock_number(tl<Lyt>(p))), v, "clock number at " << s3(p) << " of a layout that cannot be clocked"); }
    }
}
}  // namespace

PBT("determine-clocking", 3000, 80000, "more than four gates and wires")
{
    if (c.below(3)) { clocks_case<cart_t>(c); }
    else { clocks_case<hexr_t>(c); }
}
