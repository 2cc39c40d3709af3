// P25: logic network types and views
#include "net_common.hpp"

#include <fiction/algorithms/network_transformation/delete_virtual_pis.hpp>
#include <fiction/networks/views/bfs_topo_view.hpp>
#include <fiction/networks/views/edge_color_view.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/networks/views/static_depth_view.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <fiction/utils/network_utils.hpp>

#include <mockturtle/networks/aig.hpp>
#include <mockturtle/views/fanout_view.hpp>

using namespace fiction;
using net::word;
using tec_t = mockturtle::names_view<technology_network>;

static bool is_kind(const tec_t& t, std::uint64_t n, unsigned k)
{
    switch (k)
    {
        case net::BUF: return t.is_buf(n);
        case net::NOT: return t.is_inv(n);
        case net::AND: return t.is_and(n);
        case net::NAND: return t.is_nand(n);
        case net::OR: return t.is_or(n);
        case net::NOR: return t.is_nor(n);
        case net::LT: return t.is_lt(n);
        case net::GE: return t.is_ge(n);
        case net::GT: return t.is_gt(n);
        case net::LE: return t.is_le(n);
        case net::XOR: return t.is_xor(n);
        case net::XNOR: return t.is_xnor(n);
        case net::MAJ: return t.is_maj(n);
        case net::ITE: return t.is_ite(n);
        case net::XOR3: return t.is_xor3(n);
        case net::DOT: return t.is_dot(n);
        case net::AND3: return t.is_and3(n);
        case net::XOR_AND: return t.is_xor_and(n);
        case net::OR_AND: return t.is_or_and(n);
        case net::ONEHOT: return t.is_onehot(n);
        case net::GAMBLE: return t.is_gamble(n);
        default: return t.is_and_xor(n);
    }
}

static void check_network(const tec_t& t, const net::model& m, const std::vector<std::uint64_t>& sig, const char* when)
{
    REQUIRE_EQ(t.size(), m.n.size(), when << ": size");
    REQUIRE_EQ(t.num_pis(), m.pis.size(), when << ": inputs");
    REQUIRE_EQ(t.num_pos(), m.pos.size(), when << ": outputs");
    REQUIRE_EQ(t.num_gates(), m.n.size() - 2 - m.pis.size(), when << ": gates");
    const auto fo = m.fanout_sizes();
    for (std::size_t i = 2; i < m.n.size(); ++i)
    {
        const auto& x = m.n[i];
        const auto  n = t.get_node(sig[i]);
        REQUIRE_EQ(t.is_pi(n), x.k == net::PI, when << ": is_pi of " << i);
        REQUIRE_THAT(!t.is_constant(n), when << ": node " << i << " is not constant");
        REQUIRE_EQ(t.fanout_size(n), fo[i], when << ": fan-out size of " << i);
        REQUIRE_EQ(t.fanin_size(n), x.in.size(), when << ": fan-in size of " << i);
        REQUIRE_EQ(t.is_po(n), std::find(m.pos.begin(), m.pos.end(), i) != m.pos.end(), when << ": is_po of " << i);
        std::vector<std::uint64_t> in{}, want{};
        t.foreach_fanin(n, [&](const auto& f) { in.push_back(f); });
        for (const auto j : x.in) { want.push_back(sig[j]); }
        REQUIRE_THAT(in == want, when << ": fan-ins of " << i);
        for (unsigned k = 0; k < net::KINDS.size(); ++k)
        {
            const bool same = x.k != net::PI && net::KINDS[k].arity == x.in.size() && net::KINDS[k].tt == x.tt;
            REQUIRE_EQ(is_kind(t, n, k), same, when << ": is_" << net::KINDS[k].name << " of " << i);
        }
        REQUIRE_EQ(t.is_fanout(n), x.k == net::BUF && fo[i] > 1, when << ": is_fanout of " << i);
        if (x.k != net::PI)
        {
            const auto f = t.node_function(n);
            REQUIRE_EQ(static_cast<std::size_t>(f.num_vars()), x.in.size(), when << ": variables of the function of " << i);
            REQUIRE_EQ(*f.begin(), x.tt, when << ": function of " << i);
        }
    }
    REQUIRE_THAT(net::simulate(t) == m.outputs(), when << ": the outputs compute something else");
}

PBT("technology-network", 3000, 60000, "a gate with fan-out above one")
{
    auto  r = net::random_network<tec_t>(c, {});
    auto& t = r.ntk;
    auto& m = r.m;
    check_network(t, m, r.sig, "after construction");
    // gates are never merged: building the same gate again makes a new node
    std::vector<std::uint64_t> gates{}, want{};
    t.foreach_gate([&](const auto& n) { gates.push_back(n); });
    for (std::size_t i = 2; i < m.n.size(); ++i) { if (m.n[i].k != net::PI) { want.push_back(r.sig[i]); } }
    REQUIRE_THAT(gates == want, "the gates are enumerated in the order of creation");
    // n-ary gates
    if (c.flip())
    {
        const auto                 k = c.below(4);
        std::vector<std::uint64_t> s{};
        std::vector<word>          w{};
        for (unsigned i = 0; i < k; ++i)
        {
            const auto j = 2 + c.below(m.n.size() - 2);
            s.push_back(r.sig[j]);
            w.push_back(m.n[j].value);
        }
        auto       t2 = t.clone();
        const auto a = t2.create_nary_and(s), o = t2.create_nary_or(s), x = t2.create_nary_xor(s);
        word       wa = ~0ull, wo = 0, wx = 0;
        for (const auto v : w) { wa &= v; wo |= v; wx ^= v; }
        t2.create_po(a);
        t2.create_po(o);
        t2.create_po(x);
        auto out = m.outputs();
        out.insert(out.end(), {wa, wo, wx});
        REQUIRE_THAT(net::simulate(t2) == out, "n-ary gates");
    }
    // clones are independent
    auto       copy = t.clone();
    const auto old  = m;
    const auto osig = r.sig;
    {
        const auto a = 2 + c.below(m.n.size() - 2);
        const auto b = 2 + c.below(m.n.size() - 2);
        r.sig.push_back(t.create_nand(r.sig[a], r.sig[b]));
        const auto g = m.gate(net::NAND, 7, {static_cast<unsigned>(a), static_cast<unsigned>(b)});
        m.pos.push_back(g);
        t.create_po(r.sig[g]);
        check_network(t, m, r.sig, "after adding a gate");
        check_network(tec_t{copy}, old, osig, "clone");
        REQUIRE_EQ(t.create_not(t.get_constant(false)), t.get_constant(true), "inverting a constant");
    }
    // outputs of their own
    if (c.flip())
    {
        const auto before = net::simulate(t);
        t.substitute_po_signals();
        REQUIRE_THAT(net::simulate(t) == before, "giving each output a buffer changes the function");
        std::map<std::uint64_t, unsigned> refs{};
        t.foreach_node([&](const auto& n) { t.foreach_fanin(n, [&](const auto& f) { ++refs[f]; }); });
        t.foreach_po([&](const auto& f) { ++refs[f]; });
        unsigned i = 0;
        t.foreach_po([&](const auto& f)
        {
            REQUIRE_THAT(t.is_buf(f), "output " << i << " is driven by a buffer");
            ++i;
        });
        t.foreach_node([&](const auto& n)
        {
            if (!t.is_constant(n)) { REQUIRE_EQ(t.fanout_size(n), refs[n], "fan-out size of node " << n << " after substituting the outputs"); }
        });
    }
    const auto fo = m.fanout_sizes();
    for (std::size_t i = 2; i < m.n.size(); ++i) { if (m.n[i].k != net::PI && fo[i] > 1) { c.nontrivial(); } }
}

template <typename Base>
static void virtual_pis(pbt::ctx& c)
{
    using vnt = virtual_pi_network<Base>;
    vnt                                           v{};
    std::vector<mockturtle::signal<vnt>>          sig{}, real_s{};
    std::vector<word>                             val{};
    std::map<mockturtle::node<vnt>, std::uint64_t> virt{};  // virtual -> real node
    std::vector<mockturtle::node<vnt>>            reals{}, virts{};
    std::map<mockturtle::node<vnt>, word>         pival{};
    const auto steps = c.in(2, 20);
    for (int s = 0; s < steps; ++s)
    {
        const auto op = c.below(6);
        if (reals.empty() || (op == 0 && reals.size() < 6))
        {
            const auto f = v.create_pi();
            pival[v.get_node(f)] = net::PROJ[reals.size()];
            val.push_back(net::PROJ[reals.size()]);
            reals.push_back(v.get_node(f));
            real_s.push_back(f);
            sig.push_back(f);
        }
        else if (op <= 2)
        {
            const auto i = c.below(reals.size());
            const auto f = v.create_virtual_pi(real_s[i]);
            virt[v.get_node(f)]  = reals[i];
            pival[v.get_node(f)] = net::PROJ[i];
            virts.push_back(v.get_node(f));
            sig.push_back(f);
            val.push_back(net::PROJ[i]);
        }
        else
        {
            const auto a = c.below(sig.size()), b = c.below(sig.size()), d = c.below(sig.size());
            switch (c.below(5))
            {
                case 0: sig.push_back(v.create_and(sig[a], sig[b])); val.push_back(val[a] & val[b]); break;
                case 1: sig.push_back(v.create_or(sig[a], sig[b])); val.push_back(val[a] | val[b]); break;
                case 2: sig.push_back(v.create_xor(sig[a], sig[b])); val.push_back(val[a] ^ val[b]); break;
                case 3: sig.push_back(v.create_maj(sig[a], sig[b], sig[d])); val.push_back((val[a] & val[b]) | (val[a] & val[d]) | (val[b] & val[d])); break;
                default: sig.push_back(v.create_not(sig[a])); val.push_back(~val[a]); break;
            }
        }
    }
    std::vector<word> out{};
    const auto        pos = c.in(0, 4);
    for (int i = 0; i < pos; ++i)
    {
        const auto s = c.below(sig.size());
        v.create_po(sig[s]);
        out.push_back(val[s]);
    }
    const auto check = [&](const vnt& x, const char* when)
    {
        REQUIRE_EQ(x.num_virtual_pis(), virts.size(), when << ": virtual inputs");
        REQUIRE_EQ(x.num_virtual_cis(), virts.size(), when << ": virtual inputs");
        REQUIRE_EQ(x.num_real_pis(), reals.size(), when << ": real inputs");
        REQUIRE_EQ(x.num_real_cis(), reals.size(), when << ": real inputs");
        REQUIRE_EQ(x.num_pis(), reals.size() + virts.size(), when << ": inputs");
        REQUIRE_EQ(x.real_size(), x.size() - virts.size(), when << ": real size");
        std::vector<mockturtle::node<vnt>> r1{}, r2{}, v1{}, v2{};
        x.foreach_real_pi([&](const auto& n) { r1.push_back(n); });
        x.foreach_real_ci([&](const auto& n) { r2.push_back(n); });
        x.foreach_virtual_pi([&](const auto& n) { v1.push_back(n); });
        x.foreach_virtual_ci([&](const auto& n) { v2.push_back(n); });
        REQUIRE_THAT(r1 == reals && r2 == reals, when << ": enumeration of the real inputs");
        REQUIRE_THAT(v1 == virts && v2 == virts, when << ": enumeration of the virtual inputs");
        x.foreach_node([&](const auto& n)
        {
            const bool vi = virt.count(n) != 0;
            const bool re = std::find(reals.begin(), reals.end(), n) != reals.end();
            REQUIRE_THAT(x.is_virtual_pi(n) == vi && x.is_virtual_ci(n) == vi, when << ": is_virtual_pi of " << n);
            REQUIRE_THAT(x.is_real_pi(n) == re && x.is_real_ci(n) == re, when << ": is_real_pi of " << n);
            if (vi) { REQUIRE_EQ(x.get_real_pi(n), virt.at(n), when << ": real input of virtual input " << n); }
        });
    };
    check(v, "network");
    auto copy = v.clone();
    // remove the virtual inputs
    const auto plain = delete_virtual_pis(v);
    REQUIRE_EQ(plain.num_virtual_pis(), 0u, "virtual inputs left");
    REQUIRE_EQ(plain.num_pis(), reals.size(), "inputs without the virtual ones");
    REQUIRE_EQ(plain.num_pos(), out.size(), "outputs without the virtual inputs");
    REQUIRE_THAT(net::simulate(plain) == out, "removing the virtual inputs changed the function: " << virts.size() << " virtual inputs");
    check(v, "after removing the virtual inputs of a copy");
    // clones are independent
    if (!reals.empty())
    {
        [[maybe_unused]] const auto s1 = v.create_pi();
        [[maybe_unused]] const auto s2 = v.create_virtual_pi(real_s[0]);
        check(copy, "clone");
        REQUIRE_EQ(v.num_virtual_pis(), virts.size() + 1, "virtual inputs after adding one");
    }
    if (!virts.empty() && !out.empty()) { c.nontrivial(); }
}
PBT("virtual-inputs", 3000, 60000, "virtual inputs and outputs")
{
    if (c.flip()) { virtual_pis<technology_network>(c); }
    else { virtual_pis<mockturtle::aig_network>(c); }
}

namespace
{
template <typename Ntk>
struct odd_cost
{
    std::uint32_t operator()(const Ntk&, const mockturtle::node<Ntk>& n) const { return 1u + static_cast<std::uint32_t>(n % 3); }
};
}  // namespace

/// levels of all nodes, the hard way
template <typename Ntk, typename Cost>
static std::map<mockturtle::node<Ntk>, std::uint32_t> levels_of(const Ntk& ntk, const Cost& cost, bool complements, bool pi_cost)
{
    std::map<mockturtle::node<Ntk>, std::uint32_t> l{};
    const std::function<std::uint32_t(const mockturtle::node<Ntk>&)> f = [&](const auto& n) -> std::uint32_t
    {
        if (const auto it = l.find(n); it != l.end()) { return it->second; }
        if (ntk.is_constant(n)) { return l[n] = 0; }
        if (ntk.is_pi(n)) { return l[n] = pi_cost ? cost(ntk, n) - 1 : 0; }
        std::uint32_t m = 0;
        ntk.foreach_fanin(n, [&](const auto& s) { m = std::max(m, f(ntk.get_node(s)) + (complements && ntk.is_complemented(s) ? 1u : 0u)); });
        return l[n] = m + cost(ntk, n);
    };
    ntk.foreach_node([&](const auto& n) { f(n); });
    return l;
}

template <typename Ntk, typename Cost, typename Make>
static void depths(pbt::ctx& c, const Ntk& ntk, Make&& mk, bool complements, bool pi_cost)
{
    const Cost cost{};
    const auto l = levels_of(ntk, cost, complements, pi_cost);
    std::uint32_t depth = 0;
    std::set<mockturtle::node<Ntk>> reach{}, crit{};
    const std::function<void(const mockturtle::node<Ntk>&)> mark = [&](const auto& n)
    {
        if (!reach.insert(n).second) { return; }
        ntk.foreach_fanin(n, [&](const auto& s) { mark(ntk.get_node(s)); });
    };
    ntk.foreach_po([&](const auto& f)
    {
        depth = std::max(depth, l.at(ntk.get_node(f)) + (complements && ntk.is_complemented(f) ? 1u : 0u));
        mark(ntk.get_node(f));
    });
    const std::function<void(const mockturtle::node<Ntk>&)> mc = [&](const auto& n)
    {
        if (!crit.insert(n).second || ntk.is_constant(n)) { return; }
        ntk.foreach_fanin(n, [&](const auto& s) { if (l.at(ntk.get_node(s)) + cost(ntk, n) == l.at(n)) { mc(ntk.get_node(s)); } });
    };
    ntk.foreach_po([&](const auto& f) { if (l.at(ntk.get_node(f)) == depth) { mc(ntk.get_node(f)); } });

    auto       d     = mk(ntk);
    const auto check = [&](const auto& x, const char* when)
    {
        REQUIRE_EQ(x.depth(), depth, when << ": depth");
        ntk.foreach_node([&](const auto& n)
        {
            REQUIRE_EQ(x.level(n), l.at(n), when << ": level of " << n);
            if (!complements && !pi_cost) { REQUIRE_EQ(x.is_on_critical_path(n), crit.count(n) != 0, when << ": critical path at " << n); }
        });
    };
    check(d, "view");
    auto e = d;
    check(e, "copy");
    decltype(d) g = mk(Ntk{});
    g = e;
    check(g, "assigned");
    decltype(d) h = std::move(e);
    check(h, "moved");
    h.update_levels();
    check(h, "updated");
    g.set_level(ntk.get_node(ntk.get_constant(false)), 7u);
    g.set_depth(99);
    REQUIRE_EQ(g.depth(), 99u, "set_depth");
    check(h, "independent of a copy");
    if (depth > 1) { c.nontrivial(); }
}

static mockturtle::aig_network random_aig(pbt::ctx& c)
{
    mockturtle::aig_network                   a{};
    std::vector<mockturtle::aig_network::signal> s{};
    const auto pis = c.in(1, 5);
    for (int i = 0; i < pis; ++i) { s.push_back(a.create_pi()); }
    const auto g = c.in(0, 12);
    for (int i = 0; i < g; ++i)
    {
        auto x = c.pick(s), y = c.pick(s);
        if (c.flip()) { x = !x; }
        if (c.flip()) { y = !y; }
        s.push_back(c.chance(1, 4) ? a.create_or(x, y) : a.create_and(x, y));
    }
    const auto p = c.in(1, 3);
    for (int i = 0; i < p; ++i)
    {
        auto f = s[s.size() - 1 - c.below(std::min<std::size_t>(s.size(), 4))];
        a.create_po(c.flip() ? f : !f);
    }
    return a;
}

PBT("depth-view", 3000, 60000, "depth above one")
{
    const auto which = c.below(4);
    if (which == 0)
    {
        auto r = net::random_network<technology_network>(c, {});
        depths<technology_network, mockturtle::unit_cost<technology_network>>(c, r.ntk, [](const auto& n) { return static_depth_view<technology_network>{n}; }, false, false);
    }
    else if (which == 1)
    {
        auto       r  = net::random_network<technology_network>(c, {});
        const bool pc = c.flip();
        using cost    = odd_cost<technology_network>;
        depths<technology_network, cost>(c, r.ntk, [&](const auto& n) { return static_depth_view<technology_network, cost>{n, cost{}, {false, pc}}; }, false, pc);
    }
    else
    {
        const auto a  = random_aig(c);
        const bool cc = c.flip(), pc = c.flip();
        using net_t   = mockturtle::aig_network;
        using cost    = odd_cost<net_t>;
        if (which == 2) { depths<net_t, mockturtle::unit_cost<net_t>>(c, a, [&](const auto& n) { return static_depth_view<net_t>{n, {}, {cc, false}}; }, cc, false); }
        else { depths<net_t, cost>(c, a, [&](const auto& n) { return static_depth_view<net_t, cost>{n, cost{}, {cc, pc}}; }, cc, pc); }
    }
}

PBT("depth-view-growing", 2000, 40000, "depth above one")
{
    // the network grows under the view, which is told about every new node
    static_depth_view<technology_network> d{};
    std::vector<std::uint64_t>            s{};
    std::map<std::uint64_t, unsigned>     l{};
    unsigned                              depth = 0;
    const auto                            steps = c.in(1, 20);
    for (int i = 0; i < steps; ++i)
    {
        if (s.empty() || c.chance(1, 4))
        {
            s.push_back(d.create_pi());
            l[s.back()] = 0;
        }
        else
        {
            const auto a = c.pick(s), b = c.pick(s);
            s.push_back(d.create_and(a, b));
            l[s.back()] = 1 + std::max(l[a], l[b]);
        }
        d.on_add(s.back());
        depth = std::max(depth, l[s.back()]);
        for (const auto n : s) { REQUIRE_EQ(d.level(n), l[n], "level of " << n << " after adding " << s.size() << " nodes"); }
        REQUIRE_EQ(d.depth(), depth, "depth after adding " << s.size() << " nodes, the last one " << (d.is_pi(s.back()) ? "an input" : "a gate"));
    }
    if (depth > 1) { c.nontrivial(); }
}

PBT("rank-view", 3000, 60000, "a rank of more than one gate")
{
    net::opts o{};
    o.dangling = c.chance(1, 3);
    auto       r  = net::random_network<technology_network>(c, o);
    const auto l  = levels_of(r.ntk, mockturtle::unit_cost<technology_network>{}, false, false);
    mutable_rank_view<technology_network> v{r.ntk};
    std::vector<std::vector<std::uint64_t>> want{};
    want.resize(v.depth() + 1);
    r.ntk.foreach_node([&](const auto& n)
    {
        if (r.ntk.is_constant(n)) { return; }
        if (want.size() <= l.at(n)) { want.resize(l.at(n) + 1); }
        want[l.at(n)].push_back(n);
    });
    const auto check = [&](const mutable_rank_view<technology_network>& x, const std::vector<std::vector<std::uint64_t>>& w, const char* when)
    {
        REQUIRE_THAT(x.get_all_ranks() == w, when << ": ranks");
        REQUIRE_THAT(x.check_validity(), when << ": the view calls itself invalid");
        std::size_t                width = 0;
        std::vector<std::uint64_t> all{}, gates{}, seen{}, sg{}, pis{}, sp{};
        for (std::uint32_t i = 0; i < w.size(); ++i)
        {
            width = std::max(width, w[i].size());
            REQUIRE_EQ(x.rank_width(i), w[i].size(), when << ": width of rank " << i);
            REQUIRE_THAT(x.get_ranks(i) == w[i], when << ": rank " << i);
            std::vector<std::uint64_t> in{}, ing{}, wg{};
            x.foreach_node_in_rank(i, [&](const auto& n) { in.push_back(n); });
            x.foreach_gate_in_rank(i, [&](const auto& n) { ing.push_back(n); });
            for (std::uint32_t k = 0; k < w[i].size(); ++k)
            {
                REQUIRE_EQ(x.rank_position(w[i][k]), k, when << ": position of node " << w[i][k]);
                REQUIRE_EQ(x.at_rank_position(i, k), w[i][k], when << ": node at position " << k << " of rank " << i);
                all.push_back(w[i][k]);
                if (!r.ntk.is_pi(w[i][k])) { wg.push_back(w[i][k]); }
                else { pis.push_back(w[i][k]); }
            }
            gates.insert(gates.end(), wg.begin(), wg.end());
            REQUIRE_THAT(in == w[i], when << ": nodes of rank " << i);
            REQUIRE_THAT(ing == wg, when << ": gates of rank " << i);
        }
        REQUIRE_EQ(x.width(), width, when << ": width");
        x.foreach_node([&](const auto& n) { seen.push_back(n); });
        x.foreach_gate([&](const auto& n) { sg.push_back(n); });
        x.foreach_pi([&](const auto& n) { sp.push_back(n); });
        REQUIRE_THAT(seen == all, when << ": nodes rank by rank");
        REQUIRE_THAT(sg == gates, when << ": gates rank by rank");
        REQUIRE_THAT(sp == pis, when << ": inputs in the order of their rank");
        sp.clear();
        x.foreach_ci([&](const auto& n) { sp.push_back(n); });
        REQUIRE_THAT(sp == pis, when << ": inputs in the order of their rank");
        sp.clear();
        x.foreach_pi_unranked([&](const auto& n) { sp.push_back(n); });
        std::vector<std::uint64_t> unr{};
        r.ntk.foreach_pi([&](const auto& n) { unr.push_back(n); });
        REQUIRE_THAT(sp == unr, when << ": inputs in the order of creation");
    };
    check(v, want, "view");
    const auto orig = v;
    const auto w0   = want;
    const auto ops  = c.in(1, 6);
    for (int i = 0; i < ops; ++i)
    {
        const auto lvl = static_cast<std::uint32_t>(c.below(want.size()));
        auto&      rk  = want[lvl];
        if (rk.empty()) { continue; }
        switch (c.below(5))
        {
            case 0:
            case 1:
            {
                const auto a = c.below(rk.size()), b = c.below(rk.size());
                v.swap(rk[a], rk[b]);
                std::swap(rk[a], rk[b]);
                break;
            }
            case 2:
            {
                c.shuffle(rk);
                v.set_ranks(lvl, rk);
                break;
            }
            case 3:
            {
                const bool up = c.flip();
                v.sort_rank(lvl, [up](const auto& a, const auto& b) { return up ? a < b : a > b; });
                std::sort(rk.begin(), rk.end(), [up](const auto& a, const auto& b) { return up ? a < b : a > b; });
                break;
            }
            default:
            {
                for (auto& x : want) { c.shuffle(x); }
                v.set_all_ranks(want);
                break;
            }
        }
        check(v, want, "after rearranging");
    }
    check(orig, w0, "copy taken before rearranging");
    mutable_rank_view<technology_network> w{r.ntk, want};
    check(w, want, "view with given ranks");
    auto moved = std::move(w);
    check(moved, want, "moved");
    moved = orig;
    check(moved, w0, "assigned");
    v.rearrange_pis();
    std::vector<std::uint64_t> unr{};
    std::vector<std::uint64_t> got{};
    r.ntk.foreach_pi([&](const auto& n) { unr.push_back(n); });
    v.foreach_pi([&](const auto& n) { got.push_back(n); });
    REQUIRE_THAT(got == unr, "rearrange_pis restores the order of creation");
    v.update_ranks();
    check(v, w0, "after update_ranks");
    for (const auto& x : w0) { if (x.size() > 1 && !r.ntk.is_pi(x[0])) { c.nontrivial(); } }
}

PBT("bfs-order", 3000, 60000, "a gate with the same fan-in twice or depth above one")
{
    net::opts o{};
    o.dangling   = c.flip();
    o.duplicates = c.flip();
    auto       r = net::random_network<technology_network>(c, o);
    const auto l = levels_of(r.ntk, mockturtle::unit_cost<technology_network>{}, false, false);
    bfs_topo_view<technology_network> v{r.ntk};
    std::vector<std::uint64_t>        order{}, rev{}, gates{}, grev{};
    v.foreach_node([&](const auto& n) { order.push_back(n); });
    v.foreach_node_reverse([&](const auto& n) { rev.push_back(n); });
    v.foreach_gate([&](const auto& n) { gates.push_back(n); });
    v.foreach_gate_reverse([&](const auto& n) { grev.push_back(n); });
    REQUIRE_EQ(order.size(), r.ntk.size(), "the order holds every node");
    REQUIRE_EQ(v.size(), order.size(), "size");
    REQUIRE_EQ(v.num_gates(), r.ntk.num_gates(), "number of gates");
    std::map<std::uint64_t, std::size_t> at{};
    std::vector<std::uint64_t>           wg{};
    for (std::size_t i = 0; i < order.size(); ++i)
    {
        REQUIRE_THAT(at.emplace(order[i], i).second, "node " << order[i] << " appears twice");
        r.ntk.foreach_fanin(order[i], [&](const auto& f) { REQUIRE_THAT(at.count(f) != 0, "node " << order[i] << " comes before its fan-in " << f); });
        REQUIRE_EQ(v.node_to_index(order[i]), i, "index of node " << order[i]);
        REQUIRE_EQ(v.index_to_node(static_cast<std::uint32_t>(i)), order[i], "node at index " << i);
        if (i > 0) { REQUIRE_THAT(l.at(order[i - 1]) <= l.at(order[i]), "the order is not by levels at index " << i); }
        if (!r.ntk.is_constant(order[i]) && !r.ntk.is_pi(order[i])) { wg.push_back(order[i]); }
    }
    REQUIRE_THAT(gates == wg, "gates in that order");
    std::reverse(wg.begin(), wg.end());
    REQUIRE_THAT(grev == wg, "gates in reverse order");
    std::reverse(rev.begin(), rev.end());
    REQUIRE_THAT(rev == order, "nodes in reverse order");
    for (const auto& x : r.m.n) { if (x.in.size() > 1 && x.in[0] == x.in[1]) { c.nontrivial(); c.label("duplicate"); } }
    if (r.m.depth() > 1) { c.nontrivial(); }
}

PBT("edge-colors-and-utilities", 3000, 60000, "five gates or more")
{
    net::opts o{};
    o.max_gates = 10;
    auto  r = net::random_network<technology_network>(c, o);
    auto& t = r.ntk;
    auto& m = r.m;
    using ecv = out_of_place_edge_color_view<technology_network>;
    ecv  v{t};
    using edge = mockturtle::edge<ecv>;
    std::vector<std::pair<std::uint64_t, std::uint64_t>> edges{}, seen{};
    for (std::size_t i = 0; i < m.n.size(); ++i) { for (const auto j : m.n[i].in) { edges.emplace_back(r.sig[j], r.sig[i]); } }
    foreach_edge(t, [&](const auto& e) { seen.emplace_back(e.source, e.target); });
    REQUIRE_THAT(seen == edges, "edges of the network");
    std::map<std::pair<std::uint64_t, std::uint64_t>, std::uint32_t> col{};
    std::map<std::uint64_t, std::uint32_t>                           ncol{};
    const auto ops = c.in(0, 12);
    for (int i = 0; i < ops && !edges.empty(); ++i)
    {
        const auto e = c.pick(edges), f = c.pick(edges);
        switch (c.below(6))
        {
            case 0: v.paint_edge(edge{e.first, e.second}, static_cast<std::uint32_t>(3 + i)); col[e] = static_cast<std::uint32_t>(3 + i); break;
            case 1: v.paint_edge(edge{e.first, e.second}); col[e] = v.current_color(); break;
            case 2: v.paint_edge(edge{e.first, e.second}, edge{f.first, f.second}); col[e] = col[f]; break;
            case 3: { const auto b = v.current_color(); REQUIRE_THAT(v.new_color() != b, "a new colour"); break; }
            case 4: v.paint(e.first, static_cast<std::uint32_t>(5 + i)); ncol[e.first] = static_cast<std::uint32_t>(5 + i); break;
            default:
                if (c.chance(1, 4)) { v.clear_colors(); col.clear(); ncol.clear(); }
                break;
        }
        for (const auto& x : edges)
        {
            REQUIRE_EQ(v.edge_color((edge{x.first, x.second})), col[x], "colour of the edge " << x.first << " -> " << x.second);
            REQUIRE_EQ(v.color(x.first), ncol[x.first], "colour of node " << x.first);
            REQUIRE_THAT(v.eval_edge_color(edge{x.first, x.second}, [&](const auto k) { return k == col[x]; }), "predicate on an edge's colour");
        }
        REQUIRE_THAT(v.eval_edge_color(edge{e.first, e.second}, edge{f.first, f.second}, [&](const auto a, const auto b) { return a == col[e] && b == col[f]; }), "predicate on two edges' colours");
    }
    // node-wise queries
    mockturtle::fanout_view<technology_network> fv{t};
    bool high1 = false, high2 = false;
    for (std::size_t i = 2; i < m.n.size(); ++i)
    {
        const auto                 n = r.sig[i];
        const auto&                in = m.n[i].in;
        std::vector<std::uint64_t> real{};
        unsigned                   consts = 0;
        bool                       pi     = false;
        for (const auto j : in)
        {
            if (j < 2) { ++consts; }
            else { real.push_back(r.sig[j]); }
            pi = pi || m.n[j].k == net::PI;
        }
        if (real.size() > 1) { high1 = true; }
        if (real.size() > 2) { high2 = true; }
        REQUIRE_EQ(num_constant_fanins(t, n), consts, "constant fan-ins of " << i);
        REQUIRE_EQ(has_incoming_primary_input(t, n), pi, "primary input among the fan-ins of " << i);
        if (consts <= 1)
        {
            const auto fc = fanins(t, n);
            REQUIRE_THAT(fc.fanin_nodes == real, "fan-ins of " << i);
            REQUIRE_EQ(fc.constant_fanin.has_value(), consts == 1, "constant fan-in of " << i);
            for (const auto j : in) { if (j < 2) { REQUIRE_EQ(*fc.constant_fanin, j == 1, "value of the constant fan-in of " << i); } }
        }
        const auto fe = fanin_edges(t, n);
        REQUIRE_EQ(fe.fanin_edges.size(), real.size(), "fan-in edges of " << i);
        for (std::size_t k = 0; k < real.size(); ++k) { REQUIRE_THAT(fe.fanin_edges[k].source == real[k] && fe.fanin_edges[k].target == n, "fan-in edge " << k << " of " << i); }
        std::set<std::uint64_t>    fo{};
        for (std::size_t q = 0; q < m.n.size(); ++q) { for (const auto j : m.n[q].in) { if (j == i) { fo.insert(r.sig[q]); } } }
        const auto f = fanouts(fv, n);
        REQUIRE_THAT((std::set<std::uint64_t>(f.begin(), f.end()) == fo), "fan-outs of " << i);
        std::set<std::uint64_t> fo2{};
        foreach_outgoing_edge(fv, n, [&](const auto& e) { REQUIRE_EQ(e.source, n, "source of an outgoing edge"); fo2.insert(e.target); });
        REQUIRE_THAT(fo2 == fo, "outgoing edges of " << i);
        std::vector<std::uint64_t> inc{}, winc{};
        foreach_incoming_edge(t, n, [&](const auto& e) { REQUIRE_EQ(e.target, n, "target of an incoming edge"); inc.push_back(e.source); });
        for (const auto j : in) { winc.push_back(r.sig[j]); }
        REQUIRE_THAT(inc == winc, "incoming edges of " << i);
        // number of paths, and each one a path from a terminal
        std::vector<std::uint64_t> paths(m.n.size(), 0);
        for (std::size_t q = 2; q <= i; ++q)
        {
            if (m.n[q].in.empty()) { paths[q] = 1; }
            for (const auto j : m.n[q].in) { if (j >= 2) { paths[q] += paths[j]; } }
        }
        if (paths[i] < 200)
        {
            const auto ps = all_incoming_edge_paths(t, n);
            REQUIRE_EQ(ps.size(), paths[i], "number of paths to " << i);
            for (const auto& p : ps)
            {
                if (in.empty()) { REQUIRE_THAT(p.empty(), "the path to a terminal is empty"); continue; }
                REQUIRE_THAT(!p.empty() && p.back().target == n && t.fanin_size(p.front().source) == 0, "a path leads from a terminal to " << i);
                for (std::size_t k = 1; k < p.size(); ++k) { REQUIRE_EQ(p[k].source, p[k - 1].target, "a path is connected"); }
            }
        }
    }
    REQUIRE_EQ(has_high_degree_fanin_nodes(t, 1), high1, "a node of more than one fan-in");
    REQUIRE_EQ(has_high_degree_fanin_nodes(t, 2), high2, "a node of more than two fan-ins");
    // inverse levels (no dangling nodes)
    const auto reach = m.reachable();
    bool       all   = true;
    for (std::size_t i = 2; i < m.n.size(); ++i) { all = all && (reach[i] || m.n[i].k == net::PI); }
    if (all)
    {
        c.label("inverse levels");
        std::vector<std::uint32_t> il(m.n.size(), 0);
        for (std::size_t i = m.n.size(); i-- > 2;) { for (const auto j : m.n[i].in) { il[j] = std::max(il[j], il[i] + 1); } }
        const auto got = inverse_levels(fv);
        for (std::size_t i = 2; i < m.n.size(); ++i) { REQUIRE_EQ(got[r.sig[i]], il[i], "inverse level of " << i); }
    }
    if (m.n.size() > 7 + m.pis.size()) { c.nontrivial(); }
}
