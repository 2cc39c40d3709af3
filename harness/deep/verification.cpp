// P36: verification: design rules, equivalence, miters, critical path and throughput, gate counts
#include "gl_common.hpp"
#include "pd_common.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/algorithms/verification/equivalence_checking.hpp>
#include <fiction/algorithms/verification/virtual_miter.hpp>
#include <fiction/networks/virtual_pi_network.hpp>

#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/klut.hpp>
#include <mockturtle/networks/mig.hpp>
#include <mockturtle/networks/xag.hpp>

#include <sstream>

using namespace fiction;
using lyt::P3;
using lyt::p3;
using lyt::s3;
using lyt::tl;
using namespace glr;

// -------------------------------------------------------------------------------------------------------- design rules
namespace
{
struct thing
{
    bool            wire{}, pi{}, po{};
    std::vector<P3> in{};
};

std::set<std::string> keys_of(const nlohmann::json& j)
{
    std::set<std::string> r{};
    if (j.is_object())
    {
        for (auto it = j.begin(); it != j.end(); ++it) { r.insert(it.key()); }
    }
    return r;
}
std::string show(const std::set<std::string>& s)
{
    std::string r{};
    for (const auto& x : s) { r += x + " "; }
    return r.empty() ? "none" : r;
}

template <typename Lyt>
void drv(pbt::ctx& c)
{
    const long X = 1 + static_cast<long>(c.below(5)), Y = 1 + static_cast<long>(c.below(5)), Z = static_cast<long>(c.below(3) != 0);
    static const std::vector<std::string> schemes{"2DDWAVE", "ROW", "COLUMNAR3", "USE", "RES", "ESR", "OPEN", "OPEN3"};
    const auto nm = c.pick(schemes);
    Lyt        l{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *get_clocking_scheme<Lyt>(nm)};
    if (nm.substr(0, 4) == "OPEN")
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x)
            {
                const auto cn = static_cast<unsigned char>(c.below(l.num_clocks()));
                for (long z = 0; z <= Z; ++z) { l.assign_clock_number(tl<Lyt>({x, y, z}), cn); }
            }
        }
    }
    std::vector<P3> order{};
    for (long z = 0; z <= Z; ++z)
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x) { order.emplace_back(x, y, z); }
        }
    }
    c.shuffle(order);
    const auto near = [&](const P3& a, const P3& b)
    {
        bool r = false;
        for (const auto& q : l.adjacent_coordinates(tl<Lyt>(lyt::ground(a)))) { r |= lyt::ground(p3(q)) == lyt::ground(b); }
        return r;
    };
    const auto clk     = [&](const P3& p) { return static_cast<unsigned>(l.get_clock_number(tl<Lyt>(p))); };
    const auto clocked = [&](const P3& from, const P3& to) { return (clk(from) + 1) % l.num_clocks() == clk(to); };
    std::map<P3, thing> m{};
    std::vector<P3>     pos{};
    const auto          sloppy = c.below(4);  // 0: only proper connections
    const auto          count  = 1 + c.below(order.size());
    std::uint64_t       unplaced = 0;
    const bool          no_inputs = c.chance(1, 8), no_outputs = c.chance(1, 8);
    for (std::size_t k = 0; k < count; ++k)
    {
        const auto p = order[k];
        const auto t = tl<Lyt>(p);
        if (!no_inputs && (k == 0 || c.below(8) == 0))
        {
            l.create_pi("i" + std::to_string(k), t);
            m[p] = {true, true, false, {}};
            continue;
        }
        std::vector<P3> from{};
        for (const auto& [q, x] : m)
        {
            if (x.po) { continue; }
            const bool good = near(q, p) && clocked(q, p);
            if (good || (sloppy > 1 && c.below(12) == 0) || (sloppy > 2 && near(q, p) && c.flip())) { from.push_back(q); }
        }
        c.shuffle(from);
        if (from.empty() && (sloppy == 0 || c.below(3) != 0)) { continue; }
        const auto n = std::min<std::size_t>(from.size(), 1 + c.below(3));
        from.resize(n);
        std::vector<mockturtle::signal<Lyt>> in{};
        for (const auto& q : from) { in.push_back(l.make_signal(l.get_node(tl<Lyt>(q)))); }
        if (n == 0)
        {
            // a gate without any connection
            const auto s = l.create_and({}, {}, t);
            l.move_node(l.get_node(s), t, {});
            m[p] = {false, false, false, {}};
        }
        else if (n == 1)
        {
            const auto w = c.below(5);
            if (w == 0 && !no_outputs)
            {
                l.create_po(in[0], "o" + std::to_string(k), t);
                m[p] = {true, false, true, from};
            }
            else if (w < 4)
            {
                l.create_buf(in[0], t);
                m[p] = {true, false, false, from};
            }
            else
            {
                l.create_not(in[0], t);
                m[p] = {false, false, false, from};
            }
        }
        else if (n == 2)
        {
            l.create_and(in[0], in[1], t);
            m[p] = {false, false, false, from};
        }
        else
        {
            l.create_maj(in[0], in[1], in[2], t);
            m[p] = {false, false, false, from};
        }
        if (c.below(30) == 0)
        {
            l.create_and(in.empty() ? mockturtle::signal<Lyt>{} : in[0], l.make_signal(l.get_node(t)));
            ++unplaced;
        }
    }
    // the rules, one by one
    struct result
    {
        std::uint64_t         drvs{}, warnings{};
        std::set<std::string> tiles{};
    };
    std::map<std::string, result> want{};
    const auto                    at = [](const P3& p) { return s3(p); };
    std::uint64_t                 pis = 0, pos_n = 0;
    std::string                   plan{};
    for (const auto& [p, x] : m)
    {
        plan += at(p) + (x.pi ? "pi" : x.po ? "po" : x.wire ? "wire" : "gate") + "<-";
        for (const auto& q : x.in) { plan += at(q); }
        plan += " ";
        pis += x.pi;
        pos_n += x.po;
        std::uint64_t in = 0, out = 0;
        for (const auto& q : x.in)
        {
            if (!near(q, p))
            {
                auto& r = want["Non adjacent connections"];
                r.drvs++;
                r.tiles.insert(at(p));
                r.tiles.insert(at(q));
            }
            if (!clocked(q, p))
            {
                auto& r = want["Improperly clocked tiles"];
                r.drvs++;
                r.tiles.insert(at(p));
                r.tiles.insert(at(q));
            }
            in += near(q, p) && clocked(q, p);
        }
        for (const auto& [q, y] : m)
        {
            for (const auto& z : y.in) { out += z == p && near(p, q) && clocked(p, q); }
        }
        if ((in == 0 && !x.pi) || (out == 0 && !x.po))
        {
            auto& r = want["Missing connections"];
            r.drvs++;
            r.tiles.insert(at(p));
        }
        if (x.wire && std::get<2>(p) == 1)
        {
            const auto it = m.find(lyt::ground(p));
            if (it == m.end() || !it->second.wire)
            {
                auto& r = want["Wires crossing gates"];
                r.drvs++;
                r.tiles.insert(at(p));
            }
        }
        if ((x.pi || x.po) && std::get<0>(p) != 0 && std::get<1>(p) != 0 && std::get<0>(p) != X && std::get<1>(p) != Y)
        {
            auto& r = want["Border I/O ports"];
            r.warnings++;
            r.tiles.insert(at(p));
        }
    }
    c.note(nm + " " + s3({X, Y, Z}) + ": " + plan);
    c.note(unplaced, " unplaced nodes");
    want["Unplaced nodes"].warnings = unplaced;
    want["I/O counts"].drvs         = static_cast<std::uint64_t>(pis == 0) + (pos_n == 0);
    if (m.empty() && unplaced == 0) { want.clear(); }
    gate_level_drv_params ps{};
    ps.unplaced_nodes           = !c.chance(1, 6);
    ps.placed_dead_nodes        = !c.chance(1, 6);
    ps.non_adjacent_connections = !c.chance(1, 6);
    ps.missing_connections      = !c.chance(1, 6);
    ps.crossing_gates           = !c.chance(1, 6);
    ps.clocked_data_flow        = !c.chance(1, 6);
    ps.has_io                   = !c.chance(1, 6);
    ps.empty_io                 = !c.chance(1, 6);
    ps.io_pins                  = !c.chance(1, 6);
    ps.border_io                = !c.chance(1, 6);
    std::ostringstream os{};
    ps.out = &os;
    gate_level_drv_stats st{};
    gate_level_drvs(l, ps, &st);
    const std::vector<std::pair<std::string, bool>> checks{{"Unplaced nodes", ps.unplaced_nodes}, {"Dead placed nodes", ps.placed_dead_nodes}, {"Non adjacent connections", ps.non_adjacent_connections}, {"Missing connections", ps.missing_connections}, {"Wires crossing gates", ps.crossing_gates}, {"Improperly clocked tiles", ps.clocked_data_flow}, {"I/O counts", ps.has_io}, {"Empty I/O ports", ps.empty_io}, {"Gate I/O ports", ps.io_pins}, {"Border I/O ports", ps.border_io}};
    std::uint64_t drvs = 0, warnings = 0, failed = 0, kinds = 0;
    for (const auto& [name, on] : checks)
    {
        if (!on)
        {
            REQUIRE_THAT(!st.report.contains(name), name << " is reported although the rule is turned off");
            continue;
        }
        REQUIRE_THAT(st.report.contains(name), "nothing is reported about: " << name);
        const auto& w = want[name];
        drvs += w.drvs;
        warnings += w.warnings;
        failed += (w.drvs + w.warnings) != 0;
        kinds += w.drvs != 0;
        if (name == "I/O counts")
        {
            if (!m.empty())
            {
                REQUIRE_EQ(st.report[name]["Specified PIs"].template get<std::uint64_t>(), pis, "inputs");
                REQUIRE_EQ(st.report[name]["Counted PIs"].template get<std::uint64_t>(), pis, "inputs");
                REQUIRE_EQ(st.report[name]["Specified POs"].template get<std::uint64_t>(), pos_n, "outputs");
                REQUIRE_EQ(st.report[name]["Counted POs"].template get<std::uint64_t>(), pos_n, "outputs");
            }
        }
        else if (name != "Unplaced nodes")
        {
            REQUIRE_EQ(show(keys_of(st.report[name])), show(w.tiles), "tiles reported for: " << name);
            for (const auto& k : w.tiles)
            {
                const auto text = st.report[name][k].template get<std::string>();
                for (const auto& [p, x] : m)
                {
                    if (at(p) != k) { continue; }
                    REQUIRE_THAT(text.find("clk: " + std::to_string(clk(p))) != std::string::npos, "clock number of " << k << " in " << text);
                    REQUIRE_EQ(text.find(", PI") != std::string::npos, x.pi, "is " << k << " an input in " << text);
                    REQUIRE_EQ(text.find(", PO") != std::string::npos, x.po, "is " << k << " an output in " << text);
                }
            }
        }
    }
    REQUIRE_EQ(st.drvs, drvs, "number of design rule violations");
    REQUIRE_EQ(st.warnings, warnings, "number of warnings");
    REQUIRE_EQ(st.report["DRVs"].template get<std::uint64_t>(), drvs, "number of violations in the report");
    REQUIRE_EQ(st.report["Warnings"].template get<std::uint64_t>(), warnings, "number of warnings in the report");
    std::uint64_t nots = 0;
    const auto    text = os.str();
    for (auto i = text.find("not all"); i != std::string::npos; i = text.find("not all", i + 1)) { ++nots; }
    REQUIRE_EQ(nots, failed, "rules that are printed as violated");
    c.key(std::hash<std::string>{}(plan));
    c.nontrivial(kinds > 0 && m.size() > 4);
    c.label(std::to_string(kinds) + " rules violated");
}
}  // namespace
PBT("design-rules", 20000, 500000, "more than four tiles that violate some rule")
{
    switch (c.below(5))
    {
        case 0: drv<h_er>(c); break;
        case 1: drv<h_oc>(c); break;
        case 2: drv<sc_or>(c); break;
        default: drv<cart>(c);
    }
}

// ------------------------------------------------------------------------------------------- critical path and throughput
namespace
{
struct timing
{
    std::uint64_t cp{}, tp{1};
};
template <typename Lyt>
timing timing_of(const Lyt& l)
{
    const auto n = static_cast<long>(l.num_clocks());
    struct info
    {
        long len{}, delay{};
    };
    std::map<P3, info> known{};
    long               worst = 0;
    timing             r{};
    std::function<info(const P3&)> visit = [&](const P3& p) -> info
    {
        if (const auto it = known.find(p); it != known.end()) { return it->second; }
        const auto      t = tl<Lyt>(p);
        std::vector<P3> in{};
        l.foreach_fanin(l.get_node(t), [&](const auto& f) { in.push_back(p3(static_cast<tile<Lyt>>(f))); });
        info me{1, static_cast<long>(l.get_clock_number(t))};
        if (!in.empty())
        {
            long lo = 0, hi = 0;
            me = {0, 0};
            for (std::size_t i = 0; i < in.size(); ++i)
            {
                const auto x = visit(in[i]);
                me.len       = std::max(me.len, x.len + 1);
                hi           = i == 0 ? x.delay : std::max(hi, x.delay);
                lo           = i == 0 ? x.delay : std::min(lo, x.delay);
            }
            me.delay = hi + 1;
            worst    = std::max(worst, hi - lo);
        }
        return known[p] = me;
    };
    l.foreach_po([&](const auto& f) { r.cp = std::max(r.cp, static_cast<std::uint64_t>(visit(p3(static_cast<tile<Lyt>>(f))).len)); });
    r.tp = static_cast<std::uint64_t>(worst / n) + 1;
    return r;
}
template <typename Lyt>
void timing_check(pbt::ctx& c)
{
    const auto l = random_layout<Lyt>(c, false);
    const auto w = timing_of(l);
    const auto g = critical_path_length_and_throughput(l);
    std::string d{};
    for (const auto& [p, x] : gates_of(l, false)) { d += s3(p) + "=" + show(x) + "; "; }
    c.note(d);
    REQUIRE_EQ(g.critical_path_length, w.cp, "length of the critical path");
    REQUIRE_EQ(g.throughput, w.tp, "throughput");
    c.label("throughput 1/" + std::to_string(w.tp));
    c.key(std::hash<std::string>{}(d));
    c.nontrivial(w.cp > 3);
}
}  // namespace
PBT("timing", 12000, 300000, "a critical path of more than three tiles")
{
    switch (c.below(5))
    {
        case 0: timing_check<h_or>(c); break;
        case 1: timing_check<h_ec>(c); break;
        case 2: timing_check<sc_ec>(c); break;
        default: timing_check<cart>(c);
    }
}
/// wires of different lengths that meet at a gate
PBT("timing-unbalanced", 6000, 120000, "a throughput below one")
{
    using L = cart;
    net::opts o{};
    o.max_gates = static_cast<unsigned>(c.pick({3, 6, 12}));
    o.max_pis   = 6;
    o.min_pis   = 2;
    o.ternary = o.unary = o.constants = o.const_po = o.duplicates = o.dangling = false;
    const auto m = net::random_network<pd::tec_t>(c, o);
    orthogonal_physical_design_params ps{};
    ps.number_of_clock_phases = c.flip() ? num_clks::THREE : num_clks::FOUR;
    const auto l = orthogonal<L>(m.ntk, ps);
    const auto w = timing_of(l);
    const auto g = critical_path_length_and_throughput(l);
    REQUIRE_EQ(g.critical_path_length, w.cp, "length of the critical path");
    REQUIRE_EQ(g.throughput, w.tp, "throughput");
    c.label("throughput 1/" + std::to_string(w.tp));
    c.key(w.cp * 31 + m.m.n.size());
    c.nontrivial(w.tp > 1);
}

// ---------------------------------------------------------------------------------------------------------- equivalence
namespace
{
net::opts eq_specs(pbt::ctx& c, const bool drawable)
{
    net::opts o{};
    o.max_gates = static_cast<unsigned>(c.pick({3, 6, 10}));
    o.max_pis   = 4;
    if (drawable) { o.ternary = o.unary = o.constants = o.const_po = o.duplicates = o.dangling = false; }
    return o;
}
/// builds the network of a model again, maybe with another gate or in another order of outputs
template <typename Ntk>
net::made<Ntk> again(pbt::ctx& c, const net::model& a, const unsigned change)
{
    net::made<Ntk> r{};
    r.sig = {r.ntk.get_constant(false), r.ntk.get_constant(true)};
    std::vector<unsigned> to{0, 1};
    const auto            victim = a.n.size() > 2 ? 2 + c.below(a.n.size() - 2) : 0;
    for (std::size_t i = 2; i < a.n.size(); ++i)
    {
        if (a.n[i].k == net::PI)
        {
            to.push_back(r.m.pi());
            r.sig.push_back(r.ntk.create_pi());
            continue;
        }
        std::vector<unsigned> in{};
        for (const auto j : a.n[i].in) { in.push_back(to[j]); }
        const auto place = [&](const net::kind k, const std::uint64_t tt, const std::vector<unsigned>& x)
        {
            std::vector<mockturtle::signal<Ntk>> s{};
            for (const auto j : x) { s.push_back(r.sig[j]); }
            r.sig.push_back(net::make(r.ntk, k, tt, s));
            return r.m.gate(k, tt, x);
        };
        auto k  = a.n[i].k;
        auto tt = a.n[i].tt;
        // the same function in other words
        if (k == net::AND && c.flip()) { to.push_back(place(net::NOT, 1, {place(net::NAND, 7, in)})); }
        else if (k == net::OR && c.flip()) { to.push_back(place(net::NAND, 7, {place(net::NOT, 1, {in[0]}), place(net::NOT, 1, {in[1]})})); }
        else if (k == net::XOR && c.flip()) { to.push_back(place(net::NOT, 1, {place(net::XNOR, 9, in)})); }
        else
        {
            if (change == 1 && i == victim && in.size() == 2)
            {
                k  = static_cast<net::kind>(c.pick({net::AND, net::OR, net::NOR, net::XOR, net::NAND}));
                tt = net::KINDS[k].tt;
            }
            to.push_back(place(k, tt, in));
        }
    }
    auto pos = a.pos;
    if (change == 2 && pos.size() > 1) { std::swap(pos[0], pos[1 + c.below(pos.size() - 1)]); }
    if (change == 3 && !pos.empty()) { pos.pop_back(); }
    if (change == 4)
    {
        r.m.pi();
        r.sig.push_back(r.ntk.create_pi());
    }
    for (const auto p : pos)
    {
        r.m.pos.push_back(to[p]);
        r.ntk.create_po(r.sig[to[p]]);
    }
    return r;
}
struct verdict
{
    bool comparable{}, equal{};
};
verdict compare(const net::model& a, const net::model& b)
{
    if (a.pis.size() != b.pis.size() || a.pos.size() != b.pos.size()) { return {false, false}; }
    const auto k = net::mask(static_cast<unsigned>(a.pis.size()));
    const auto x = a.outputs(), y = b.outputs();
    bool       r = true;
    for (std::size_t i = 0; i < x.size(); ++i) { r &= ((x[i] ^ y[i]) & k) == 0; }
    return {true, r};
}
/// adds a gate nobody reads
template <typename Lyt>
bool spoil(pbt::ctx& c, Lyt& l)
{
    for (int i = 0; i < 20; ++i)
    {
        const P3 p{static_cast<long>(c.below(static_cast<std::uint64_t>(l.x()) + 1)), static_cast<long>(c.below(static_cast<std::uint64_t>(l.y()) + 1)), 0};
        if (!l.is_empty_tile(tl<Lyt>(p))) { continue; }
        std::vector<mockturtle::node<Lyt>> n{};
        l.foreach_pi([&](const auto& x) { n.push_back(x); });
        if (n.empty()) { return false; }
        l.create_buf(l.make_signal(c.pick(n)), tl<Lyt>(p));
        return true;
    }
    return false;
}
template <typename S, typename I>
void equivalence(pbt::ctx& c, const S& spec, const net::model& ms, const bool spec_bad, const std::optional<timing>& ts, const I& impl, const net::model& mi, const bool impl_bad, const std::optional<timing>& ti)
{
    equivalence_checking_stats st{};
    const auto                 r = equivalence_checking(spec, impl, &st);
    REQUIRE_THAT(r == st.eq, "result and statistics differ");
    const auto name = [](const eq_type t) { return std::string{t == eq_type::NO ? "not equivalent" : t == eq_type::WEAK ? "weakly equivalent" : "strongly equivalent"}; };
    if (spec_bad || impl_bad)
    {
        REQUIRE_EQ(name(r), name(eq_type::NO), "equivalence with design rule violations");
        REQUIRE_EQ(spec_bad, st.spec_drv_stats.drvs != 0, "violations of the specification");
        if (!spec_bad) { REQUIRE_EQ(impl_bad, st.impl_drv_stats.drvs != 0, "violations of the implementation"); }
        return;
    }
    REQUIRE_EQ(st.spec_drv_stats.drvs + st.impl_drv_stats.drvs, 0u, "design rule violations of sound layouts");
    const auto v = compare(ms, mi);
    if (!v.comparable || !v.equal)
    {
        REQUIRE_EQ(name(r), name(eq_type::NO), "equivalence of different " << (v.comparable ? "functions" : "numbers of inputs or outputs"));
        if (v.comparable)
        {
            REQUIRE_EQ(st.counter_example.size(), ms.pis.size(), "size of the counter example");
            std::size_t at = 0;
            for (std::size_t i = 0; i < st.counter_example.size(); ++i) { at |= static_cast<std::size_t>(st.counter_example[i]) << i; }
            bool differs = false;
            for (std::size_t i = 0; i < ms.pos.size(); ++i) { differs |= (((ms.outputs()[i] ^ mi.outputs()[i]) >> at) & 1u) != 0; }
            REQUIRE_THAT(differs, "the counter example shows no difference");
        }
        return;
    }
    const auto x = ts ? static_cast<std::int64_t>(ts->tp) : 1, y = ti ? static_cast<std::int64_t>(ti->tp) : 1;
    REQUIRE_EQ(st.tp_spec, x, "throughput of the specification");
    REQUIRE_EQ(st.tp_impl, y, "throughput of the implementation");
    REQUIRE_EQ(st.tp_diff, std::abs(x - y), "difference in throughput");
    // two layouts of the same throughput below one: neither kind of equivalence is defined for them
    if (x != y || x == 1) { REQUIRE_EQ(name(r), name(x != y ? eq_type::WEAK : eq_type::STRONG), "kind of equivalence for throughputs of 1/" << x << " and 1/" << y); }
    else { REQUIRE_THAT(r != eq_type::NO, "equivalent layouts"); }
    c.label(name(r));
}
}  // namespace
PBT("equivalence", 6000, 120000, "networks or layouts of three gates or more")
{
    const auto mode     = c.below(4);  // bit 0: the implementation is a layout, bit 1: the specification, too
    const auto a        = net::random_network<pd::tec_t>(c, eq_specs(c, mode != 0));
    const auto change   = static_cast<unsigned>(c.pick({0, 0, 0, 1, 1, 2, 3, 4}));
    c.key(mode * 17 + a.m.n.size() * 100 + change);
    c.nontrivial(a.m.n.size() > a.m.pis.size() + 4);
    if (a.m.pos.empty()) { throw pbt::discard{}; }
    if (mode == 0)
    {
        const auto b = again<technology_network>(c, a.m, change);
        c.note(b.m.str());
        equivalence(c, a.ntk, a.m, false, {}, b.ntk, b.m, false, {});
        return;
    }
    auto draw = [&](const auto& ntk)
    {
        orthogonal_physical_design_params ps{};
        ps.number_of_clock_phases = c.flip() ? num_clks::THREE : num_clks::FOUR;
        return orthogonal<cart>(ntk, ps);
    };
    auto la = draw(a.ntk);
    if (mode == 1)
    {
        const auto b = again<technology_network>(c, a.m, change);
        c.note(b.m.str());
        const auto bad = c.chance(1, 6) && spoil(c, la);
        if (c.flip()) { equivalence(c, b.ntk, b.m, false, {}, la, a.m, bad, timing_of(la)); }
        else { equivalence(c, la, a.m, bad, timing_of(la), b.ntk, b.m, false, {}); }
        return;
    }
    const auto b   = net::random_network<pd::tec_t>(c, eq_specs(c, true));
    const bool own = c.below(3) != 0;
    auto       lb  = draw(own ? a.ntk : b.ntk);
    const auto ba = c.chance(1, 8) && spoil(c, la), bb = c.chance(1, 8) && spoil(c, lb);
    equivalence(c, la, a.m, ba, timing_of(la), lb, own ? a.m : b.m, bb, timing_of(lb));
}

// --------------------------------------------------------------------------------------------------------------- miters
namespace
{
template <typename Dest, typename Base>
void miter(pbt::ctx& c)
{
    using vnt = virtual_pi_network<Base>;
    const auto build = [&](const std::size_t reals, const std::size_t outs, std::vector<net::word>& value, const std::vector<std::uint64_t>& recipe)
    {
        vnt                                  v{};
        std::vector<mockturtle::signal<vnt>> s{};
        std::vector<net::word>               w{};
        std::vector<mockturtle::signal<vnt>> rs{};
        std::size_t                          at = 0;
        const auto                           next = [&] { return recipe[at++ % recipe.size()]; };
        for (std::size_t i = 0; i < reals; ++i)
        {
            rs.push_back(v.create_pi());
            s.push_back(rs.back());
            w.push_back(net::PROJ[i]);
            // a virtual input may come at any time
            if (c.below(3) == 0)
            {
                const auto k = c.below(rs.size());
                s.push_back(v.create_virtual_pi(rs[k]));
                w.push_back(net::PROJ[k]);
            }
        }
        // gates choose among the values, not among the signals, such that virtual inputs do not change the function
        std::vector<std::size_t> firsts{};
        const auto               pick = [&](const std::uint64_t r)
        {
            firsts.clear();
            for (std::size_t i = 0; i < w.size(); ++i)
            {
                if (std::find(w.begin(), w.begin() + static_cast<long>(i), w[i]) == w.begin() + static_cast<long>(i)) { firsts.push_back(i); }
            }
            const auto               target = w[firsts[r % firsts.size()]];
            std::vector<std::size_t> same{};
            for (std::size_t i = 0; i < w.size(); ++i) { if (w[i] == target) { same.push_back(i); } }
            return c.pick(same);
        };
        const auto gates = recipe[0] % 8;
        for (std::uint64_t g = 0; g < gates; ++g)
        {
            const auto kind = next() % 4;
            const auto i = pick(next()), j = pick(next());
            switch (kind)
            {
                case 0: s.push_back(v.create_and(s[i], s[j])); w.push_back(w[i] & w[j]); break;
                case 1: s.push_back(v.create_or(s[i], s[j])); w.push_back(w[i] | w[j]); break;
                case 2: s.push_back(v.create_xor(s[i], s[j])); w.push_back(w[i] ^ w[j]); break;
                default: s.push_back(v.create_not(s[i])); w.push_back(~w[i]);
            }
        }
        for (std::size_t i = 0; i < outs; ++i)
        {
            const auto k = pick(next());
            v.create_po(s[k]);
            value.push_back(w[k]);
        }
        return v;
    };
    std::vector<std::uint64_t> recipe{};
    for (int i = 0; i < 40; ++i) { recipe.push_back(c.below(1000)); }
    const auto             pis = 1 + c.below(5), pos = 1 + c.below(3);
    auto                   other = recipe;
    if (c.flip()) { other[1 + c.below(12)] = c.below(1000); }
    const auto             pis2 = c.below(8) == 0 ? 1 + c.below(5) : pis, pos2 = c.below(8) == 0 ? 1 + c.below(3) : pos;
    std::vector<net::word> x{}, y{};
    const auto             a = build(pis, pos, x, recipe), b = build(pis2, pos2, y, other);
    const auto             m = virtual_miter<Dest>(a, b);
    c.note(pis, " and ", pis2, " inputs, ", pos, " and ", pos2, " outputs, ", a.num_virtual_pis(), " and ", b.num_virtual_pis(), " virtual inputs");
    REQUIRE_EQ(m.has_value(), pis == pis2 && pos == pos2, "is there a miter for " << pis << " and " << pis2 << " inputs, " << pos << " and " << pos2 << " outputs");
    if (!m) { return; }
    REQUIRE_EQ(m->num_pis(), pis, "inputs of the miter");
    REQUIRE_EQ(m->num_pos(), 1u, "outputs of the miter");
    net::word want = 0;
    for (std::size_t i = 0; i < x.size(); ++i) { want |= x[i] ^ y[i]; }
    const auto k   = net::mask(static_cast<unsigned>(pis));
    const auto got = net::simulate(*m);
    REQUIRE_EQ(got[0] & k, want & k, "function of the miter");
    c.key(std::hash<net::word>{}(want & k) + pis * 7 + a.num_virtual_pis() * 3);
    c.label((want & k) == 0 ? "equivalent" : "different");
    c.nontrivial(a.num_virtual_pis() + b.num_virtual_pis() > 0);
}
}  // namespace
PBT("virtual-miter", 8000, 200000, "there are virtual inputs")
{
    switch (c.below(4))
    {
        case 0: miter<technology_network, technology_network>(c); break;
        case 1: miter<mockturtle::klut_network, technology_network>(c); break;
        case 2: miter<mockturtle::klut_network, mockturtle::aig_network>(c); break;
        default: miter<mockturtle::aig_network, mockturtle::aig_network>(c);
    }
}

// ---------------------------------------------------------------------------------------------------------- gate counts
namespace
{
const std::vector<std::pair<std::string, std::uint64_t count_gate_types_stats::*>> COUNTERS{
    {"FANOUT", &count_gate_types_stats::num_fanout}, {"BUF", &count_gate_types_stats::num_buf},       {"INV", &count_gate_types_stats::num_inv},
    {"AND2", &count_gate_types_stats::num_and2},     {"OR2", &count_gate_types_stats::num_or2},       {"NAND2", &count_gate_types_stats::num_nand2},
    {"NOR2", &count_gate_types_stats::num_nor2},     {"XOR2", &count_gate_types_stats::num_xor2},     {"XNOR2", &count_gate_types_stats::num_xnor2},
    {"LT2", &count_gate_types_stats::num_lt2},       {"GT2", &count_gate_types_stats::num_gt2},       {"LE2", &count_gate_types_stats::num_le2},
    {"GE2", &count_gate_types_stats::num_ge2},       {"AND3", &count_gate_types_stats::num_and3},     {"XORAND", &count_gate_types_stats::num_xor_and},
    {"ORAND", &count_gate_types_stats::num_or_and},  {"ONEHOT", &count_gate_types_stats::num_onehot}, {"MAJ3", &count_gate_types_stats::num_maj3},
    {"GAMBLE", &count_gate_types_stats::num_gamble}, {"DOT", &count_gate_types_stats::num_dot},       {"MUX", &count_gate_types_stats::num_mux},
    {"ANDXOR", &count_gate_types_stats::num_and_xor}, {"other", &count_gate_types_stats::num_other}};
const std::map<net::kind, std::string> NAME{{net::BUF, "BUF"}, {net::NOT, "INV"}, {net::AND, "AND2"}, {net::OR, "OR2"}, {net::NAND, "NAND2"}, {net::NOR, "NOR2"}, {net::XOR, "XOR2"}, {net::XNOR, "XNOR2"}, {net::LT, "LT2"}, {net::GT, "GT2"}, {net::LE, "LE2"}, {net::GE, "GE2"}, {net::AND3, "AND3"}, {net::XOR_AND, "XORAND"}, {net::OR_AND, "ORAND"}, {net::ONEHOT, "ONEHOT"}, {net::MAJ, "MAJ3"}, {net::GAMBLE, "GAMBLE"}, {net::DOT, "DOT"}, {net::ITE, "MUX"}, {net::AND_XOR, "ANDXOR"}};

void check_counts(const count_gate_types_stats& st, const std::map<std::string, std::uint64_t>& want)
{
    std::uint64_t total = 0;
    for (const auto& [n, p] : COUNTERS)
    {
        const auto it = want.find(n);
        REQUIRE_EQ(st.*p, it == want.end() ? 0u : it->second, "number of " << n << " gates");
        total += st.*p;
    }
    for (const auto detailed : {false, true})
    {
        std::ostringstream os{};
        st.report(os, detailed);
        std::map<std::string, std::uint64_t> lines{};
        std::istringstream                   is{os.str()};
        std::uint64_t                        sum = 0;
        for (std::string line{}; std::getline(is, line);)
        {
            REQUIRE_THAT(line.rfind("[i] ", 0) == 0 && line.find('=') != std::string::npos, "line of the report: " << line);
            std::string nm = line.substr(4, line.find('=') - 4);
            while (!nm.empty() && nm.back() == ' ') { nm.pop_back(); }
            lines[nm] = std::stoull(line.substr(line.find('=') + 1));
            if (nm != "total") { sum += lines[nm]; }
        }
        REQUIRE_EQ(lines["total"], total, "total of the report");
        REQUIRE_EQ(sum, total, "sum of the lines of the report");
        for (const auto& [n, k] : lines)
        {
            if (n == "total" || (n == "other" && !detailed)) { continue; }
            const auto it = want.find(n);
            REQUIRE_EQ(k, it == want.end() ? 0u : it->second, "reported number of " << n << " gates");
        }
    }
}
template <typename Lyt>
void layout_counts(pbt::ctx& c)
{
    const auto                           l = random_layout<Lyt>(c, false);
    const auto                           g = gates_of(l, false);
    std::map<std::string, std::uint64_t> want{};
    std::map<P3, unsigned>               readers{};
    for (const auto& [p, x] : g)
    {
        std::set<P3> in{x.in.begin(), x.in.end()};
        for (const auto& q : in) { readers[q]++; }
    }
    for (const auto& [p, x] : g)
    {
        if (x.what == "PI" || x.what == "PO" || x.what == "10") { want[readers[p] > 1 ? "FANOUT" : "BUF"]++; }
        else
        {
            std::string nm{"other"};
            for (const auto& [k, n] : NAME)
            {
                if (net::KINDS[k].arity > 2 && k != net::MAJ) { continue; }
                if (kitty::to_binary(net::tt_of(net::KINDS[k].arity, net::KINDS[k].tt)) == x.what) { nm = n; }
            }
            want[nm]++;
        }
    }
    count_gate_types_stats st{};
    count_gate_types(l, &st);
    check_counts(st, want);
    c.key(g.size() + want.size() * 100);
    c.nontrivial(want.size() > 2);
}
template <typename Ntk>
void graph_counts(pbt::ctx& c)
{
    Ntk                                  a{};
    std::vector<mockturtle::signal<Ntk>> s{};
    for (unsigned i = 0; i < 4; ++i) { s.push_back(a.create_pi()); }
    const auto n = c.below(12);
    for (std::uint64_t i = 0; i < n; ++i)
    {
        const auto x = c.flip() ? c.pick(s) : !c.pick(s), y = c.flip() ? c.pick(s) : !c.pick(s);
        s.push_back(c.flip() ? a.create_and(x, y) : c.flip() ? a.create_xor(x, y) : a.create_maj(x, y, c.pick(s)));
    }
    std::map<std::string, std::uint64_t> want{};
    a.foreach_gate([&](const auto& g) { want[a.is_and(g) ? "AND2" : a.is_xor(g) ? "XOR2" : "MAJ3"]++; });
    count_gate_types_stats st{};
    count_gate_types(a, &st);
    check_counts(st, want);
    c.key(a.num_gates() + want.size() * 100);
    c.nontrivial(a.num_gates() > 3);
}
}  // namespace
PBT("gate-counts", 10000, 250000, "gates of several kinds")
{
    const auto mode = c.below(8);
    if (mode == 0) { graph_counts<mockturtle::aig_network>(c); return; }
    if (mode == 1) { graph_counts<mockturtle::xag_network>(c); return; }
    if (mode == 2) { graph_counts<mockturtle::mig_network>(c); return; }
    if (mode == 3) { layout_counts<cart>(c); return; }
    if (mode == 4) { layout_counts<h_er>(c); return; }
    net::opts o{};
    o.max_gates = 25;
    const auto m = net::random_network<technology_network>(c, o);
    // outputs may have got buffers of their own: what counts is what the network holds
    std::map<std::string, std::uint64_t> want{};
    std::map<std::uint64_t, unsigned>    fo{};
    m.ntk.foreach_gate([&](const auto& n) { m.ntk.foreach_fanin(n, [&](const auto& f) { fo[m.ntk.get_node(f)]++; }); });
    m.ntk.foreach_po([&](const auto& f) { fo[m.ntk.get_node(f)]++; });
    std::set<std::string> kinds{};
    m.ntk.foreach_gate([&](const auto& n)
    {
        const auto  tt = m.ntk.node_function(n);
        std::string nm{"other"};
        for (const auto& [k, x] : NAME)
        {
            if (net::tt_of(net::KINDS[k].arity, net::KINDS[k].tt) == tt) { nm = x; }
        }
        if (nm == "BUF" && fo[n] > 1) { nm = "FANOUT"; }
        want[nm]++;
        kinds.insert(nm);
    });
    count_gate_types_stats st{};
    count_gate_types(m.ntk, &st);
    check_counts(st, want);
    c.key(m.m.n.size() + kinds.size() * 100);
    c.nontrivial(kinds.size() > 3);
}
