// randomly placed gates on layouts of all topologies under all clocking schemes, shared by several harnesses
#ifndef VERIF_GL_COMMON_HPP
#define VERIF_GL_COMMON_HPP
#include "lyt_common.hpp"
#include "net_common.hpp"

#include <fiction/layouts/shifted_cartesian_layout.hpp>

#include <kitty/print.hpp>

namespace glr
{
using namespace fiction;
using lyt::P3;
using lyt::p3;
using lyt::s3;
using lyt::tl;

inline std::string gen_name(pbt::ctx& c, const std::string& base, const bool odd)
{
    if (!odd) { return base; }
    static const std::vector<std::string> decor{"", "[0]", "<1>", " & b", "\"q\"", "'t'", "&lt;", "{}", "_x y", "]]>", "=", "%d"};
    return base + c.pick(decor);
}

template <typename L>
using gl = gate_level_layout<clocked_layout<tile_based_layout<L>>>;
using cart  = gl<cartesian_layout<offset::ucoord_t>>;
using sc_or = gl<shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>>;
using sc_er = gl<shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>>;
using sc_oc = gl<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>;
using sc_ec = gl<shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>>;
using h_or  = gl<hexagonal_layout<offset::ucoord_t, odd_row_hex>>;
using h_er  = gl<hexagonal_layout<offset::ucoord_t, even_row_hex>>;
using h_oc  = gl<hexagonal_layout<offset::ucoord_t, odd_column_hex>>;
using h_ec  = gl<hexagonal_layout<offset::ucoord_t, even_column_hex>>;

struct gate
{
    std::string     what;  // PI, PO or the function
    std::string     name;
    std::vector<P3> in;
    bool operator==(const gate& o) const { return what == o.what && name == o.name && in == o.in; }
};
inline std::string show(const gate& g)
{
    std::string s = g.what + " '" + g.name + "' <-";
    for (const auto& p : g.in) { s += " " + s3(p); }
    return s;
}

/// everything a layout holds; only what the outputs depend on if `cone`
template <typename Lyt>
std::map<P3, gate> gates_of(const Lyt& l, const bool cone)
{
    std::map<P3, gate> r{};
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) { return; }
        gate g{};
        g.what = l.is_pi(n) ? "PI" : l.is_po(n) ? "PO" : kitty::to_binary(l.node_function(n));
        if (l.is_pi(n) || l.is_po(n)) { g.name = l.get_name(n); }
        l.template foreach_fanin<std::function<void(const mockturtle::signal<Lyt>&)>, false>(n, [&](const auto& f) { g.in.push_back(p3(static_cast<tile<Lyt>>(f))); });
        r[p3(l.get_tile(n))] = g;
    });
    if (!cone) { return r; }
    std::set<P3>    keep{};
    std::vector<P3> todo{};
    for (const auto& [p, g] : r)
    {
        if (g.what == "PI") { keep.insert(p); }
        if (g.what == "PO") { todo.push_back(p); }
    }
    while (!todo.empty())
    {
        const auto p = todo.back();
        todo.pop_back();
        if (!keep.insert(p).second) { continue; }
        for (const auto& q : r[p].in) { todo.push_back(q); }
    }
    for (auto it = r.begin(); it != r.end();) { it = keep.count(it->first) ? std::next(it) : r.erase(it); }
    return r;
}

template <typename Lyt>
mockturtle::signal<Lyt> make_at(Lyt& l, const net::kind k, const std::uint64_t tt, const std::vector<mockturtle::signal<Lyt>>& s, const tile<Lyt>& t)
{
    switch (k)
    {
        case net::BUF: return l.create_buf(s[0], t);
        case net::NOT: return l.create_not(s[0], t);
        case net::AND: return l.create_and(s[0], s[1], t);
        case net::NAND: return l.create_nand(s[0], s[1], t);
        case net::OR: return l.create_or(s[0], s[1], t);
        case net::NOR: return l.create_nor(s[0], s[1], t);
        case net::LT: return l.create_lt(s[0], s[1], t);
        case net::GE: return l.create_ge(s[0], s[1], t);
        case net::GT: return l.create_gt(s[0], s[1], t);
        case net::LE: return l.create_le(s[0], s[1], t);
        case net::XOR: return l.create_xor(s[0], s[1], t);
        case net::XNOR: return l.create_xnor(s[0], s[1], t);
        case net::MAJ: return l.create_maj(s[0], s[1], s[2], t);
        default: return l.create_node(s, net::tt_of(static_cast<unsigned>(s.size()), tt), t);
    }
}

template <typename Lyt>
Lyt random_layout(pbt::ctx& c, const bool odd_names)
{
    const long X = 1 + static_cast<long>(c.below(5)), Y = 1 + static_cast<long>(c.below(5)), Z = static_cast<long>(c.below(3) != 0);
    static const std::vector<std::string> schemes{"2DDWAVE", "2DDWAVE3", "ROW", "ROW3", "COLUMNAR", "COLUMNAR3", "2DDWAVEHEX", "2DDWAVEHEX3", "USE", "RES", "ESR", "SRS", "CFE", "RIPPLE", "BANCS", "OPEN", "OPEN3"};
    const auto  nm = c.pick(schemes);
    const auto  sc = get_clocking_scheme<Lyt>(nm);
    Lyt         l{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *sc, c.flip() ? std::string{} : gen_name(c, "layout", odd_names)};
    const bool  irregular = nm.substr(0, 4) == "OPEN" || c.below(5) == 0;
    if (irregular)
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x)
            {
                if (nm.substr(0, 4) == "OPEN" ? c.below(6) != 0 : c.below(4) == 0)
                {
                    // as the physical design algorithms do: crossings are clocked with the ground below them
                    const auto cn = static_cast<unsigned char>(c.below(l.num_clocks()));
                    for (long z = 0; z <= Z; ++z) { l.assign_clock_number(tl<Lyt>({x, y, z}), cn); }
                }
            }
        }
    }
    c.note(nm + (irregular ? " irregular " : " ") + s3({X, Y, Z}));
    std::vector<P3> order{};
    for (long z = 0; z <= Z; ++z)
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x) { order.emplace_back(x, y, z); }
        }
    }
    c.shuffle(order);
    std::set<P3> placed{}, pos{}, used{};
    // a few inputs, then gates wherever there is something to connect them to
    const auto n = 1 + c.below(4);
    std::size_t k = 0;
    for (; k < n && k < order.size(); ++k)
    {
        l.create_pi(c.below(5) == 0 ? std::string{} : gen_name(c, "i" + std::to_string(k), odd_names), tl<Lyt>(order[k]));
        placed.insert(order[k]);
    }
    for (int round = 0; round < 3; ++round)
    {
        for (const auto& p : order)
        {
            if (placed.count(p)) { continue; }
            std::vector<P3> from{};
            l.foreach_incoming_clocked_zone(tl<Lyt>(lyt::ground(p)), [&](const auto& a)
            {
                for (long z = 0; z <= Z; ++z)
                {
                    const auto q = P3{static_cast<long>(a.x), static_cast<long>(a.y), z};
                    if (placed.count(q) && !pos.count(q)) { from.push_back(q); }
                }
            });
            if (from.empty() || c.below(4) == 0) { continue; }
            c.shuffle(from);
            const auto t    = tl<Lyt>(p);
            const auto sig  = [&](const P3& q) { return l.make_signal(l.get_node(tl<Lyt>(q))); };
            const auto what = c.below(8);
            if (what == 0 || (round == 2 && !used.count(from[0])))
            {
                l.create_po(sig(from[0]), c.below(5) == 0 ? std::string{} : gen_name(c, "o" + s3(p), odd_names), t);
                pos.insert(p);
                placed.insert(p);
                used.insert(from[0]);
                continue;
            }
            const auto       m = std::min<std::size_t>(from.size(), 1 + c.below(4));
            net::kind        kd = net::BUF;
            std::uint64_t    tt = 0;
            std::vector<mockturtle::signal<Lyt>> in{};
            for (std::size_t i = 0; i < m; ++i) { in.push_back(sig(from[i])), used.insert(from[i]); }
            if (m == 2 && c.below(12) == 0) { in[1] = in[0]; }
            if (c.below(4) == 0 || m > 3)
            {
                kd = net::OTHER;
                tt = c.u64() & net::mask(static_cast<unsigned>(m));
            }
            else
            {
                static const std::array<std::vector<net::kind>, 4> by{{{}, {net::BUF, net::BUF, net::NOT}, {net::AND, net::NAND, net::OR, net::NOR, net::LT, net::GE, net::GT, net::LE, net::XOR, net::XNOR}, {net::MAJ}}};
                kd = c.pick(by[m]);
            }
            make_at(l, kd, tt, in, t);
            placed.insert(p);
        }
    }
    return l;
}

}  // namespace glr
#endif
