// P26: network transformations preserve the function and establish what they are for
#include "net_common.hpp"

#include <fiction/algorithms/network_transformation/fanout_substitution.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/algorithms/network_transformation/network_conversion.hpp>
#include <fiction/networks/technology_network.hpp>
#include <fiction/types.hpp>

#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/mig.hpp>
#include <mockturtle/networks/xag.hpp>

using namespace fiction;
using net::word;

/// what a transformed network has to compute: the inputs that are dropped (allowed only when nobody reads them) are
/// skipped
template <typename Src>
struct reference
{
    std::vector<word>        pis{}, used{}, out{};
    std::vector<std::string> pi_names{}, used_names{}, po_names{};
    std::string              name{};
};
template <typename Src>
static reference<Src> reference_of(const Src& s)
{
    reference<Src> r{};
    std::size_t    i = 0;
    const auto     names = net::pi_names_of(s);
    s.foreach_pi([&](const auto& n)
    {
        r.pis.push_back(net::PROJ[i]);
        r.pi_names.push_back(names[i]);
        if (s.fanout_size(n) != 0)
        {
            r.used.push_back(net::PROJ[i]);
            r.used_names.push_back(names[i]);
        }
        ++i;
    });
    r.out      = net::simulate(s);
    r.po_names = net::po_names_of(s);
    r.name     = s.get_network_name();
    return r;
}
template <typename Dst, typename Src>
static void same(const Dst& d, const reference<Src>& r, bool dropped, const std::string& what)
{
    const auto& pis   = dropped ? r.used : r.pis;
    const auto& names = dropped ? r.used_names : r.pi_names;
    REQUIRE_EQ(d.num_pis(), pis.size(), what << ": number of inputs");
    REQUIRE_EQ(d.num_pos(), r.out.size(), what << ": number of outputs");
    REQUIRE_THAT(net::simulate(d, pis) == r.out, what << ": the function changed");
    REQUIRE_THAT(net::pi_names_of(d) == names, what << ": the names of the inputs changed");
    REQUIRE_THAT(net::po_names_of(d) == r.po_names, what << ": the names of the outputs changed");
    REQUIRE_EQ(d.get_network_name(), r.name, what << ": the name of the network changed");
}

/// a random network with complemented edges
template <typename Ntk>
static Ntk random_ce(pbt::ctx& c)
{
    Ntk                             a{};
    std::vector<typename Ntk::signal> s{};
    const auto                      pis = c.in(1, 6);
    for (int i = 0; i < pis; ++i) { s.push_back(a.create_pi(c.flip() ? "i" + std::to_string(i) : std::string{})); }
    const auto g = c.in(0, 14);
    for (int i = 0; i < g; ++i)
    {
        auto x = c.pick(s), y = c.pick(s), z = c.pick(s);
        if (c.chance(1, 10)) { x = a.get_constant(c.flip()); }
        if (c.flip()) { x = !x; }
        if (c.flip()) { y = !y; }
        if (c.flip()) { z = !z; }
        switch (c.below(6))
        {
            case 0: s.push_back(a.create_or(x, y)); break;
            case 1: s.push_back(a.create_xor(x, y)); break;
            case 2: s.push_back(a.create_maj(x, y, z)); break;
            case 3: s.push_back(a.create_ite(x, y, z)); break;
            default: s.push_back(a.create_and(x, y)); break;
        }
    }
    const auto p = c.in(1, 4);
    for (int i = 0; i < p; ++i)
    {
        const auto f = s[s.size() - 1 - c.below(std::min<std::size_t>(s.size(), 5))];
        a.create_po(c.flip() ? f : !f, c.flip() ? "o" + std::to_string(i) : std::string{});
    }
    if (c.flip()) { a.set_network_name("n" + std::to_string(c.below(9))); }
    c.note(a.size(), " nodes, ", a.num_pis(), " inputs, ", a.num_pos(), " outputs");
    return a;
}

template <typename Src>
static void conversions(const Src& s)
{
    const auto r = reference_of(s);
    same(convert_network<tec_nt>(s), r, std::is_same_v<Src, tec_nt>, "to a technology network");
    same(convert_network<aig_nt>(s), r, std::is_same_v<Src, aig_nt>, "to an AIG");
    same(convert_network<xag_nt>(s), r, std::is_same_v<Src, xag_nt>, "to an XAG");
    same(convert_network<mig_nt>(s), r, std::is_same_v<Src, mig_nt>, "to an MIG");
    // there and back
    const auto t  = convert_network<tec_nt>(s);
    const auto rt = reference_of(t);
    same(convert_network<Src>(t), rt, std::is_same_v<Src, tec_nt>, "back to the original type");
}

PBT("conversion", 4000, 80000, "a network of five or more gates")
{
    switch (c.below(5))
    {
        case 0: { const auto s = random_ce<aig_nt>(c); if (s.num_gates() > 4) { c.nontrivial(); } conversions(s); break; }
        case 1: { const auto s = random_ce<xag_nt>(c); if (s.num_gates() > 4) { c.nontrivial(); } conversions(s); break; }
        case 2: { const auto s = random_ce<mig_nt>(c); if (s.num_gates() > 4) { c.nontrivial(); } conversions(s); break; }
        default:
        {
            const auto r = net::random_network<tec_nt>(c, {});
            if (r.ntk.num_gates() > 4) { c.nontrivial(); }
            conversions(r.ntk);
            break;
        }
    }
}

/// number of readers of every node
template <typename Ntk>
static std::map<std::uint64_t, unsigned> readers(const Ntk& n)
{
    std::map<std::uint64_t, unsigned> r{};
    n.foreach_node([&](const auto& x) { n.foreach_fanin(x, [&](const auto& f) { ++r[n.get_node(f)]; }); });
    n.foreach_po([&](const auto& f) { ++r[n.get_node(f)]; });
    return r;
}

static bool substituted(const tec_nt& t, unsigned threshold, unsigned degree)
{
    const auto rd = readers(t);
    for (const auto& [n, k] : rd)
    {
        if (t.is_constant(n)) { continue; }
        if (t.is_buf(n) && k > 1) { if (k > degree) { return false; } }
        else if (k > threshold) { return false; }
    }
    return true;
}

PBT("fanout-substitution", 4000, 80000, "the source has nodes to substitute")
{
    using strategy = fanout_substitution_params::substitution_strategy;
    net::opts o{};
    o.max_gates = 18;
    fanout_substitution_params ps{};
    ps.strategy  = c.pick({strategy::BREADTH, strategy::DEPTH, strategy::RANDOM});
    ps.degree    = c.in<std::uint32_t>(2, 5);
    ps.threshold = c.in<std::uint32_t>(1, c.flip() ? 1 : ps.degree);
    if (c.flip()) { ps.seed = static_cast<std::uint32_t>(c.below(1000)); }
    c.note("degree ", ps.degree, ", threshold ", ps.threshold, ", strategy ", static_cast<int>(ps.strategy));
    const auto run = [&](const auto& src, bool tec)
    {
        const auto r = reference_of(src);
        const auto d = fanout_substitution<tec_nt>(src, ps);
        same(d, r, tec, "fan-out substitution");
        REQUIRE_THAT(substituted(d, ps.threshold, ps.degree), "a node of the result exceeds its limits");
        REQUIRE_THAT(is_fanout_substituted(d, ps), "is_fanout_substituted says no to the result");
        // nothing but buffers was added
        const auto plain = convert_network<tec_nt>(src);
        std::size_t g1 = 0, g2 = 0;
        plain.foreach_gate([&](const auto& n) { if (!plain.is_buf(n)) { ++g1; } });
        d.foreach_gate([&](const auto& n) { if (!d.is_buf(n)) { ++g2; } });
        REQUIRE_EQ(g1, g2, "gates other than buffers");
        // as many buffers as are needed, no more
        const auto  rd = readers(plain);
        std::size_t need = 0;
        bool        some = false;
        plain.foreach_node([&](const auto& n)
        {
            const auto it = rd.find(n);
            const auto k  = it == rd.end() ? 0u : it->second;
            if (plain.is_constant(n)) { return; }
            if (plain.is_buf(n)) { ++need; }
            if (plain.is_buf(n) && k > 1 && k <= ps.degree) { return; }
            if (k > ps.threshold)
            {
                some = true;
                need += (k - ps.threshold + ps.degree - 2) / (ps.degree - 1);
            }
        });
        REQUIRE_EQ(d.num_gates() - g2, need, "number of buffers");
        if (some) { c.nontrivial(); }
        // doing it again changes nothing
        const auto again = fanout_substitution<tec_nt>(d, ps);
        REQUIRE_EQ(again.size(), convert_network<tec_nt>(d).size(), "substituting again adds nodes");
        // the predicate judges the source
        const auto p = convert_network<tec_nt>(src);
        for (unsigned dg = 1; dg < 5; ++dg)
        {
            for (unsigned th = 1; th < 4; ++th)
            {
                fanout_substitution_params q{};
                q.degree    = dg;
                q.threshold = th;
                REQUIRE_EQ(is_fanout_substituted(p, q), substituted(p, th, dg), "is_fanout_substituted with degree " << dg << " and threshold " << th);
            }
        }
    };
    if (c.chance(1, 4)) { run(random_ce<aig_nt>(c), false); }
    else { run(net::random_network<tec_nt>(c, o).ntk, true); }
}

static std::map<std::uint64_t, unsigned> node_levels(const tec_nt& t)
{
    std::map<std::uint64_t, unsigned> l{};
    const std::function<unsigned(std::uint64_t)> f = [&](std::uint64_t n) -> unsigned
    {
        if (const auto it = l.find(n); it != l.end()) { return it->second; }
        if (t.is_constant(n) || t.is_pi(n)) { return l[n] = 0; }
        unsigned m = 0;
        t.foreach_fanin(n, [&](const auto& s) { m = std::max(m, f(t.get_node(s))); });
        return l[n] = m + 1;
    };
    t.foreach_node([&](const auto& n) { f(n); });
    return l;
}
static bool balanced(const tec_nt& t, bool unify, bool cones_only)
{
    const auto l = node_levels(t);
    bool       ok = true;
    std::set<std::uint64_t> in_cone{};
    const std::function<void(std::uint64_t)> mark = [&](std::uint64_t n)
    {
        if (in_cone.insert(n).second) { t.foreach_fanin(n, [&](const auto& f) { mark(t.get_node(f)); }); }
    };
    t.foreach_po([&](const auto& f) { mark(t.get_node(f)); });
    t.foreach_gate([&](const auto& n)
    {
        if (cones_only && in_cone.count(n) == 0) { return; }
        t.foreach_fanin(n, [&](const auto& f) { if (!t.is_constant(t.get_node(f)) && l.at(t.get_node(f)) + 1 != l.at(n)) { ok = false; } });
    });
    if (unify)
    {
        std::set<unsigned> pl{};
        t.foreach_po([&](const auto& f) { pl.insert(l.at(t.get_node(f))); });
        ok = ok && pl.size() < 2;
    }
    return ok;
}

PBT("balancing", 4000, 80000, "the source is not balanced")
{
    net::opts o{};
    o.min_pos = c.chance(1, 10) ? 0 : 1;
    network_balancing_params ps{};
    ps.unify_outputs = c.flip();
    const auto run = [&](const auto& src, bool tec)
    {
        const auto r = reference_of(src);
        const auto d = network_balancing<tec_nt>(src, ps);
        same(d, r, tec, "balancing");
        REQUIRE_THAT(balanced(d, ps.unify_outputs, false), "the result is not balanced");
        REQUIRE_THAT(is_balanced(d, ps), "is_balanced says no to the result");
        const auto  plain = convert_network<tec_nt>(src);
        const auto  l = node_levels(plain);
        std::size_t need = 0;
        unsigned    top = 0;
        plain.foreach_gate([&](const auto& n)
        {
            plain.foreach_fanin(n, [&](const auto& f) { if (!plain.is_constant(f)) { need += l.at(n) - l.at(f) - 1; } });
        });
        plain.foreach_po([&](const auto& f) { top = std::max(top, l.at(f)); });
        if (ps.unify_outputs) { plain.foreach_po([&](const auto& f) { need += top - l.at(f); }); }
        REQUIRE_EQ(d.size() - plain.size(), need, "number of buffers");
        if (need > 0) { c.nontrivial(); }
        // depth stays
        unsigned   dep = 0;
        const auto dl  = node_levels(d);
        d.foreach_po([&](const auto& f) { dep = std::max(dep, dl.at(f)); });
        REQUIRE_EQ(dep, top, "depth");
        for (const bool u : {false, true})
        {
            network_balancing_params q{};
            q.unify_outputs = u;
            REQUIRE_EQ(is_balanced(plain, q), balanced(plain, u, false), "is_balanced of the source");
        }
    };
    if (c.chance(1, 4)) { run(random_ce<aig_nt>(c), false); }
    else { run(net::random_network<tec_nt>(c, o).ntk, true); }
}
