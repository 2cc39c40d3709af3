// Shared by the network harnesses: random logic networks with an independent model of their function.
#ifndef VERIF_NET_COMMON_HPP
#define VERIF_NET_COMMON_HPP

#include "pbt.hpp"

#include <fiction/networks/technology_network.hpp>

#include <kitty/constructors.hpp>
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/operations.hpp>
#include <mockturtle/traits.hpp>
#include <mockturtle/views/names_view.hpp>

#include <algorithm>
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace net
{
using word = std::uint64_t;
/// the i-th input's projection: the value of input i under the 64 assignments of six inputs
inline constexpr std::array<word, 6> PROJ{{0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull,
                                           0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull}};

inline std::uint64_t mask(unsigned vars) { return vars >= 6 ? ~0ull : (1ull << (1ull << vars)) - 1; }
inline kitty::dynamic_truth_table tt_of(unsigned vars, std::uint64_t bits)
{
    kitty::dynamic_truth_table t(vars);
    kitty::create_from_words(t, &bits, &bits + 1);
    return t;
}
/// apply a function given by its truth table to words
inline word apply_tt(std::uint64_t tt, const std::vector<word>& in)
{
    word r = 0;
    for (unsigned b = 0; b < 64; ++b)
    {
        unsigned idx = 0;
        for (std::size_t k = 0; k < in.size(); ++k) { idx |= static_cast<unsigned>((in[k] >> b) & 1u) << k; }
        r |= static_cast<word>((tt >> idx) & 1u) << b;
    }
    return r;
}

struct gate_kind
{
    const char*   name;
    unsigned      arity;
    std::uint64_t tt;
};
/// the gates a technology network knows by name, with their functions (first fan-in = least significant bit)
enum kind : unsigned { BUF, NOT, AND, NAND, OR, NOR, LT, GE, GT, LE, XOR, XNOR, MAJ, ITE, XOR3, DOT, AND3, XOR_AND, OR_AND, ONEHOT, GAMBLE, AND_XOR, OTHER, PI, C0, C1 };
inline constexpr std::array<gate_kind, 22> KINDS{{{"buf", 1, 0x2},   {"not", 1, 0x1},     {"and", 2, 0x8},     {"nand", 2, 0x7},   {"or", 2, 0xe},
                                                  {"nor", 2, 0x1},   {"lt", 2, 0x2},      {"ge", 2, 0xd},      {"gt", 2, 0x4},     {"le", 2, 0xb},
                                                  {"xor", 2, 0x6},   {"xnor", 2, 0x9},    {"maj", 3, 0xe8},    {"ite", 3, 0xd8},   {"xor3", 3, 0x96},
                                                  {"dot", 3, 0x52},  {"and3", 3, 0x80},   {"xor_and", 3, 0x28}, {"or_and", 3, 0xa8}, {"onehot", 3, 0x16},
                                                  {"gamble", 3, 0x81}, {"and_xor", 3, 0x6a}}};

struct mnode
{
    kind                  k{OTHER};
    std::uint64_t         tt{};
    std::vector<unsigned> in{};  // model indices
    word                  value{};
};
struct model
{
    std::vector<mnode>    n{};  // 0, 1: constants
    std::vector<unsigned> pis{};
    std::vector<unsigned> pos{};
    model()
    {
        n.push_back({C0, 0, {}, 0});
        n.push_back({C1, 0, {}, ~0ull});
    }
    unsigned pi()
    {
        n.push_back({PI, 0, {}, PROJ[pis.size() % 6]});
        pis.push_back(static_cast<unsigned>(n.size() - 1));
        return pis.back();
    }
    unsigned gate(kind k, std::uint64_t tt, const std::vector<unsigned>& in)
    {
        std::vector<word> w{};
        w.reserve(in.size());
        for (const auto i : in) { w.push_back(n[i].value); }
        n.push_back({k, tt & mask(static_cast<unsigned>(in.size())), in, apply_tt(tt, w)});
        return static_cast<unsigned>(n.size() - 1);
    }
    [[nodiscard]] std::vector<unsigned> fanout_sizes() const
    {
        std::vector<unsigned> f(n.size(), 0);
        for (const auto& x : n) { for (const auto i : x.in) { ++f[i]; } }
        for (const auto p : pos) { ++f[p]; }
        return f;
    }
    [[nodiscard]] std::vector<unsigned> levels() const
    {
        std::vector<unsigned> l(n.size(), 0);
        for (std::size_t i = 2; i < n.size(); ++i)
        {
            for (const auto j : n[i].in) { l[i] = std::max(l[i], l[j] + 1); }
        }
        return l;
    }
    [[nodiscard]] unsigned depth() const
    {
        const auto l = levels();
        unsigned   d = 0;
        for (const auto p : pos) { d = std::max(d, l[p]); }
        return d;
    }
    [[nodiscard]] std::vector<bool> reachable() const
    {
        std::vector<bool> r(n.size(), false);
        for (const auto p : pos) { r[p] = true; }
        for (std::size_t i = n.size(); i-- > 2;)
        {
            if (r[i]) { for (const auto j : n[i].in) { r[j] = true; } }
        }
        return r;
    }
    [[nodiscard]] std::vector<word> outputs() const
    {
        std::vector<word> o{};
        for (const auto p : pos) { o.push_back(n[p].value); }
        return o;
    }
    [[nodiscard]] std::string str() const
    {
        std::string s{};
        for (std::size_t i = 2; i < n.size(); ++i)
        {
            s += std::to_string(i) + "=" + (n[i].k == PI ? "pi" : n[i].k == OTHER ? "f" : KINDS[n[i].k].name) + "(";
            for (const auto j : n[i].in) { s += std::to_string(j) + ","; }
            s += ") ";
        }
        s += "PO:";
        for (const auto p : pos) { s += " " + std::to_string(p); }
        return s;
    }
};

struct opts
{
    unsigned min_pis{1}, max_pis{6};
    unsigned max_gates{14};
    unsigned max_pos{4};
    unsigned min_pos{1};
    bool     ternary{true};
    bool     extra{true};      ///< ite, xor3, dot, and3, …
    bool     arbitrary{true};  ///< create_node with arbitrary functions
    bool     unary{true};      ///< … of one input
    bool     constants{true};  ///< constants as fan-ins
    bool     const_po{true};   ///< constant outputs
    bool     pi_po{true};      ///< inputs that drive outputs
    bool     duplicates{true}; ///< the same signal twice as fan-in
    bool     dangling{true};   ///< gates without fan-out, unused inputs
    bool     bufs{true};
    bool     names{true};
    bool     inverters{true};
    bool     lt{true};         ///< lt, gt, le, ge
};

/// create gate `k` of function `tt` in any network with the technology network's interface
template <typename Ntk, typename Sig = mockturtle::signal<Ntk>>
Sig make(Ntk& ntk, kind k, std::uint64_t tt, const std::vector<Sig>& s)
{
    switch (k)
    {
        case BUF: return ntk.create_buf(s[0]);
        case NOT: return ntk.create_not(s[0]);
        case AND: return ntk.create_and(s[0], s[1]);
        case NAND: return ntk.create_nand(s[0], s[1]);
        case OR: return ntk.create_or(s[0], s[1]);
        case NOR: return ntk.create_nor(s[0], s[1]);
        case LT: return ntk.create_lt(s[0], s[1]);
        case GE: return ntk.create_ge(s[0], s[1]);
        case GT: return ntk.create_gt(s[0], s[1]);
        case LE: return ntk.create_le(s[0], s[1]);
        case XOR: return ntk.create_xor(s[0], s[1]);
        case XNOR: return ntk.create_xnor(s[0], s[1]);
        case MAJ: return ntk.create_maj(s[0], s[1], s[2]);
        case ITE: return ntk.create_ite(s[0], s[1], s[2]);
        case XOR3: return ntk.create_xor3(s[0], s[1], s[2]);
        case DOT: return ntk.create_dot(s[0], s[1], s[2]);
        default: return ntk.create_node(s, tt_of(static_cast<unsigned>(s.size()), tt));
    }
}

/// a random network together with its model; sig maps model indices to signals
template <typename Ntk>
struct made
{
    Ntk                                  ntk{};
    model                                m{};
    std::vector<mockturtle::signal<Ntk>> sig{};
    std::vector<std::string>             pi_names{}, po_names{};
    std::string                          name{};
};

template <typename Ntk>
made<Ntk> random_network(pbt::ctx& c, const opts& o)
{
    made<Ntk> r{};
    r.sig.push_back(r.ntk.get_constant(false));
    r.sig.push_back(r.ntk.get_constant(true));
    const auto pis = c.in<unsigned>(o.min_pis, o.max_pis);
    for (unsigned i = 0; i < pis; ++i)
    {
        r.m.pi();
        std::string nm{};
        if (o.names && c.chance(1, 2)) { nm = c.chance(1, 3) ? "in_" + std::to_string(i) : c.pick({"a", "b", "x", "y", "clk"}) + std::to_string(i); }
        r.pi_names.push_back(nm);
        if constexpr (mockturtle::has_set_name_v<Ntk>) { r.sig.push_back(r.ntk.create_pi(nm)); }
        else { r.sig.push_back(r.ntk.create_pi()); }
    }
    const auto            gates = c.below(o.max_gates + 1);
    std::vector<unsigned> unused{};
    for (const auto p : r.m.pis) { unused.push_back(p); }
    for (unsigned g = 0; g < gates; ++g)
    {
        kind          k{};
        std::uint64_t tt{};
        unsigned      ar{};
        const auto    w = c.below(20);
        if (w < 11) { k = static_cast<kind>(c.pick({AND, OR, XOR, NAND, NOR, XNOR, AND, OR})); }
        else if (w < 13 && o.inverters) { k = NOT; }
        else if (w < 15 && o.lt) { k = static_cast<kind>(c.pick({LT, GT, LE, GE})); }
        else if (w < 16 && o.ternary) { k = MAJ; }
        else if (w < 17 && o.bufs) { k = BUF; }
        else if (w < 18 && o.ternary && o.extra) { k = static_cast<kind>(c.pick({ITE, XOR3, DOT, AND3, XOR_AND, OR_AND, ONEHOT, GAMBLE, AND_XOR})); }
        else if (w < 19 && o.arbitrary) { k = OTHER; }
        else { k = AND; }
        if (k == OTHER)
        {
            ar = static_cast<unsigned>(c.in<int>(o.unary ? 1 : 2, o.ternary ? 3 : 2));
            tt = c.below(mask(ar)) + 0;
            // known functions keep their name
            for (unsigned q = 0; q < KINDS.size(); ++q)
            {
                if (KINDS[q].arity == ar && KINDS[q].tt == tt) { k = static_cast<kind>(q); break; }
            }
            if (k != OTHER && ((!o.inverters && k == NOT) || (!o.bufs && k == BUF))) { k = AND; ar = 2; tt = 8; }
        }
        else
        {
            ar = KINDS[k].arity;
            tt = KINDS[k].tt;
        }
        std::vector<unsigned> in{};
        for (unsigned i = 0; i < ar; ++i)
        {
            unsigned s{};
            for (unsigned t = 0;; ++t)
            {
                // prefer signals nobody reads yet, then recent ones, then any
                const auto ch = c.below(6);
                if (ch < 3 && !unused.empty()) { s = c.pick(unused); }
                else if (o.constants && ch == 5 && c.chance(1, 6)) { s = static_cast<unsigned>(c.below(2)); }
                else { s = static_cast<unsigned>(2 + c.below(r.m.n.size() - 2)); }
                if (o.duplicates || std::find(in.begin(), in.end(), s) == in.end()) { break; }
                if (t > 6)
                {
                    // the first one that is not in the list yet
                    for (s = 2; s < r.m.n.size() && std::find(in.begin(), in.end(), s) != in.end(); ++s) {}
                    break;
                }
            }
            if (s >= r.m.n.size()) { break; }
            in.push_back(s);
        }
        if (in.size() < ar) { continue; }
        if (k == NOT && in[0] < 2) { continue; }  // folded by design
        std::vector<mockturtle::signal<Ntk>> ss{};
        for (const auto i : in)
        {
            ss.push_back(r.sig[i]);
            unused.erase(std::remove(unused.begin(), unused.end(), i), unused.end());
        }
        r.sig.push_back(make(r.ntk, k, tt, ss));
        unused.push_back(r.m.gate(k, tt, in));
    }
    const auto po = [&](unsigned s)
    {
        std::string nm{};
        if (o.names && c.chance(1, 2)) { nm = "out" + std::to_string(r.m.pos.size()); }
        r.po_names.push_back(nm);
        r.m.pos.push_back(s);
        if constexpr (mockturtle::has_set_output_name_v<Ntk>) { r.ntk.create_po(r.sig[s], nm); }
        else { r.ntk.create_po(r.sig[s]); }
    };
    if (!o.dangling)
    {
        for (const auto s : unused)
        {
            if (r.m.n[s].k != PI || o.pi_po) { po(s); }
            else
            {
                // an unused input gets a gate of its own
                r.sig.push_back(r.ntk.create_buf(r.sig[s]));
                po(r.m.gate(BUF, 2, {s}));
            }
        }
    }
    const auto want = std::max<std::size_t>(c.in<unsigned>(o.min_pos, o.max_pos), r.m.pos.size());
    for (unsigned t = 0; r.m.pos.size() < want && t < 20; ++t)
    {
        unsigned s{};
        if (o.const_po && c.chance(1, 20)) { s = static_cast<unsigned>(c.below(2)); }
        else
        {
            s = static_cast<unsigned>(r.m.n.size() - 1 - c.below(std::min<std::size_t>(r.m.n.size() - 2, 5)));
            if (s >= r.m.n.size() || s < 2) { continue; }
        }
        if (r.m.n[s].k == PI && !o.pi_po) { continue; }
        po(s);
    }
    if constexpr (mockturtle::has_set_network_name_v<Ntk>)
    {
        r.name = c.chance(1, 3) ? std::string{} : "net" + std::to_string(c.below(5));
        r.ntk.set_network_name(r.name);
    }
    c.note(r.m.str());
    return r;
}

/// the outputs of any network, evaluated node by node; inputs are numbered in the order of foreach_pi
template <typename Ntk>
std::vector<word> simulate(const Ntk& ntk, const std::vector<word>& pi_values = {PROJ.begin(), PROJ.end()})
{
    using node = mockturtle::node<Ntk>;
    std::unordered_map<node, word> v{};
    v[ntk.get_node(ntk.get_constant(false))] = 0;
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false))) { v[ntk.get_node(ntk.get_constant(true))] = ~0ull; }
    std::size_t i = 0;
    ntk.foreach_pi([&](const auto& n) { v[n] = pi_values.at(i++); });
    const std::function<word(const node&)> eval = [&](const node& n) -> word
    {
        if (const auto it = v.find(n); it != v.end()) { return it->second; }
        std::vector<word> in{};
        ntk.foreach_fanin(n, [&](const auto& f)
        {
            const auto w = eval(ntk.get_node(f));
            in.push_back(ntk.is_complemented(f) ? ~w : w);
        });
        const auto t = ntk.node_function(n);
        if (t.num_vars() != static_cast<int>(in.size()))
        {
            throw pbt::failure("a node with " + std::to_string(in.size()) + " fan-ins has a function of " + std::to_string(t.num_vars()) + " variables");
        }
        return v[n] = apply_tt(*t.begin(), in);
    };
    std::vector<word> out{};
    ntk.foreach_po([&](const auto& f)
    {
        const auto w = eval(ntk.get_node(f));
        out.push_back(ntk.is_complemented(f) ? ~w : w);
    });
    return out;
}

template <typename Ntk>
std::vector<std::string> pi_names_of(const Ntk& ntk)
{
    std::vector<std::string> r{};
    ntk.foreach_pi([&](const auto& n)
    {
        const auto s = ntk.make_signal(n);
        r.push_back(ntk.has_name(s) ? ntk.get_name(s) : std::string{});
    });
    return r;
}
template <typename Ntk>
std::vector<std::string> po_names_of(const Ntk& ntk)
{
    std::vector<std::string> r{};
    for (unsigned i = 0; i < ntk.num_pos(); ++i) { r.push_back(ntk.has_output_name(i) ? ntk.get_output_name(i) : std::string{}); }
    return r;
}

}  // namespace net

#endif
