// completely connected circuits grown gate by gate over adjacent tiles: every border between two tiles carries at most one
// connection, fan-out is realized by fan-out tiles, wires may cross in the upper layer (P37)
#ifndef VERIF_GROWN_COMMON_HPP
#define VERIF_GROWN_COMMON_HPP
#include "gl_common.hpp"

namespace grown
{
using namespace fiction;
using lyt::P3;
using lyt::p3;
using lyt::s3;
using lyt::tl;

enum class what : int { PI, PO, BUF, NOT, AND, OR, NAND, NOR, XOR, XNOR, MAJ, LT };
inline const char* name_of(const what w)
{
    static constexpr std::array<const char*, 12> N{"PI", "PO", "BUF", "NOT", "AND", "OR", "NAND", "NOR", "XOR", "XNOR", "MAJ", "LT"};
    return N[static_cast<std::size_t>(w)];
}
struct node
{
    what             w{};
    P3               pos{};
    std::vector<int> in{};
    int              capacity{1};
    std::vector<int> out{};
    std::string      name{};
};
inline bool eval(const what w, const std::vector<bool>& a)
{
    switch (w)
    {
        case what::NOT: return !a[0];
        case what::AND: return a[0] && a[1];
        case what::OR: return a[0] || a[1];
        case what::NAND: return !(a[0] && a[1]);
        case what::NOR: return !(a[0] || a[1]);
        case what::XOR: return a[0] != a[1];
        case what::XNOR: return a[0] == a[1];
        case what::LT: return a[0] && !a[1];
        case what::MAJ: return (a[0] + a[1] + a[2]) > 1;
        default: return a[0];
    }
}
struct circuit
{
    std::vector<node> g{};  // in topological order
    std::size_t       pis{}, pos{}, crossings{};
    /// values of all gates
    [[nodiscard]] std::vector<bool> run(const std::uint64_t ins) const
    {
        std::vector<bool> v(g.size());
        std::size_t       k = 0;
        for (std::size_t i = 0; i < g.size(); ++i)
        {
            if (g[i].w == what::PI) { v[i] = (ins >> k++) & 1u; continue; }
            std::vector<bool> a{};
            for (const auto j : g[i].in) { a.push_back(v[static_cast<std::size_t>(j)]); }
            v[i] = eval(g[i].w, a);
        }
        return v;
    }
    [[nodiscard]] std::string show() const
    {
        std::string s{};
        for (std::size_t i = 0; i < g.size(); ++i)
        {
            s += (i ? "; " : "") + std::to_string(i) + "=" + name_of(g[i].w) + s3(g[i].pos);
            for (const auto j : g[i].in) { s += " " + std::to_string(j); }
        }
        return s;
    }
};
struct rules
{
    std::vector<what> one{what::BUF, what::NOT}, two{what::AND, what::OR}, three{what::MAJ};
    int               fanout{3};       // the widest fan-out
    bool              crossings{true};
    bool              pis_in_first_column{};
    // may `b` be placed behind `a`?
    std::function<bool(const node&, const node&)> may{};
};

using border = std::pair<std::pair<long, long>, std::pair<long, long>>;
inline border border_of(const P3& a, const P3& b)
{
    const std::pair<long, long> x{std::get<0>(a), std::get<1>(a)}, y{std::get<0>(b), std::get<1>(b)};
    return x < y ? border{x, y} : border{y, x};
}

/// `next` lists the ground tiles data may flow to from a ground position
inline circuit grow(pbt::ctx& c, const long X, const long Y, const std::function<std::vector<P3>(const P3&)>& next, const std::function<std::vector<P3>(const P3&)>& before, const rules& r)
{
    std::vector<node>  g{};
    std::map<P3, int>  at{};
    std::set<border>   used{};
    std::vector<P3>    all{};
    for (long y = 0; y <= Y; ++y)
    {
        for (long x = 0; x <= X; ++x) { all.emplace_back(x, y, 0); }
    }
    const auto free_out = [&](const int i) { const auto& n = g[static_cast<std::size_t>(i)]; return n.w != what::PO && static_cast<int>(n.out.size()) < n.capacity; };
    const auto put = [&](node n)
    {
        const auto id = static_cast<int>(g.size());
        for (const auto j : n.in)
        {
            used.insert(border_of(g[static_cast<std::size_t>(j)].pos, n.pos));
            g[static_cast<std::size_t>(j)].out.push_back(id);
        }
        at[n.pos] = id;
        g.push_back(std::move(n));
    };
    const auto may = [&](const int i, const node& n) { return !r.may || r.may(g[static_cast<std::size_t>(i)], n); };
    // drivers that could feed position p
    const auto drivers = [&](const P3& p)
    {
        std::vector<int> d{};
        for (const auto& q : before(lyt::ground(p)))
        {
            if (used.count(border_of(p, q))) { continue; }
            for (long z = 0; z <= 1; ++z)
            {
                const auto it = at.find({std::get<0>(q), std::get<1>(q), z});
                if (it != at.end() && free_out(it->second)) { d.push_back(it->second); break; }
            }
        }
        return d;
    };
    const auto steps = 4 + c.below(static_cast<std::uint64_t>(6 + 2 * (X + 1) * (Y + 1)));
    int        pi_no = 0, po_no = 0;
    for (std::uint64_t s = 0; s < steps; ++s)
    {
        if (g.empty() || c.below(6) == 0)
        {
            const auto p = r.pis_in_first_column ? P3{0, static_cast<long>(c.below(static_cast<std::uint64_t>(Y + 1))), 0} : c.pick(all);
            if (at.count(p) || pi_no >= 6 || next(p).empty()) { continue; }
            put({what::PI, p, {}, 1, {}, "i" + std::to_string(pi_no++)});
            continue;
        }
        // extend one of the open ends, mostly the latest
        std::vector<int> open{};
        for (int i = 0; i < static_cast<int>(g.size()); ++i) { if (free_out(i)) { open.push_back(i); } }
        if (open.empty()) { continue; }
        const auto d  = c.below(2) ? open.back() : c.pick(open);
        auto       to = next(lyt::ground(g[static_cast<std::size_t>(d)].pos));
        std::erase_if(to, [&](const P3& q) { return used.count(border_of(g[static_cast<std::size_t>(d)].pos, q)) != 0; });
        if (to.empty()) { continue; }
        auto t = c.pick(to);
        if (const auto it = at.find(t); it != at.end())
        {
            // cross a wire
            const auto& w = g[static_cast<std::size_t>(it->second)];
            const auto  up = P3{std::get<0>(t), std::get<1>(t), 1};
            if (!r.crossings || w.w != what::BUF || w.capacity != 1 || w.in.empty() || at.count(up)) { continue; }
            // leave it a way out: both wires need an exit of their own
            auto ex = next(t);
            std::erase_if(ex, [&](const P3& q) { return used.count(border_of(t, q)) != 0; });
            if (ex.size() < (w.out.empty() ? 2u : 1u)) { continue; }
            node n{what::BUF, up, {d}, 1, {}, {}};
            if (may(d, n)) { put(std::move(n)); }
            continue;
        }
        auto ds = drivers(t);
        std::erase_if(ds, [&](const int j) { return lyt::ground(g[static_cast<std::size_t>(j)].pos) == lyt::ground(g[static_cast<std::size_t>(d)].pos); });
        c.shuffle(ds);
        node n{what::BUF, t, {d}, 1, {}, {}};
        const auto k = c.below(8);
        if (ds.size() >= 2 && !r.three.empty() && k < 3) { n.w = c.pick(r.three), n.in.push_back(ds[0]), n.in.push_back(ds[1]); }
        else if (!ds.empty() && !r.two.empty() && k < 6) { n.w = c.pick(r.two), n.in.push_back(ds[0]); }
        else if (k == 7 && c.flip()) { n.w = what::PO, n.name = "o" + std::to_string(po_no++), n.capacity = 0; }
        else
        {
            n.w = c.pick(r.one);
            if (n.w == what::BUF && r.fanout > 1 && c.below(3) == 0) { n.capacity = 2 + static_cast<int>(c.below(static_cast<std::uint64_t>(r.fanout - 1))); }
        }
        if (n.w != what::PO && next(t).empty()) { continue; }
        bool ok = true;
        for (const auto j : n.in) { ok = ok && may(j, n); }
        if (ok) { put(std::move(n)); }
    }
    // finish open ends
    for (int i = 0; i < static_cast<int>(g.size()); ++i)
    {
        if (g[static_cast<std::size_t>(i)].w == what::PO || !g[static_cast<std::size_t>(i)].out.empty()) { continue; }
        const auto p = g[static_cast<std::size_t>(i)].pos;
        for (const auto& q : next(lyt::ground(p)))
        {
            node n{what::PO, q, {i}, 0, {}, {}};
            if (at.count(q) || used.count(border_of(p, q)) || !may(i, n)) { continue; }
            n.name = "o" + std::to_string(po_no++);
            put(std::move(n));
            break;
        }
    }
    // drop what reaches no output; then look which wires lost the wire they cross
    std::vector<bool> keep(g.size(), false);
    for (std::size_t i = g.size(); i-- > 0;)
    {
        keep[i] = g[i].w == what::PO;
        for (const auto j : g[i].out) { keep[i] = keep[i] || keep[static_cast<std::size_t>(j)]; }
    }
    circuit          r2{};
    std::vector<int> id(g.size(), -1);
    for (std::size_t i = 0; i < g.size(); ++i)
    {
        if (!keep[i]) { continue; }
        auto n = g[i];
        id[i]  = static_cast<int>(r2.g.size());
        if (std::get<2>(n.pos) == 1)
        {
            const auto under = at.at(lyt::ground(n.pos));
            if (!keep[static_cast<std::size_t>(under)]) { n.pos = lyt::ground(n.pos); }
            else { ++r2.crossings; }
        }
        for (auto& j : n.in) { j = id[static_cast<std::size_t>(j)]; }
        n.out.clear();
        for (const auto j : n.in) { r2.g[static_cast<std::size_t>(j)].out.push_back(id[i]); }
        r2.pis += n.w == what::PI, r2.pos += n.w == what::PO;
        r2.g.push_back(std::move(n));
    }
    return r2;
}
template <typename Lyt>
circuit grow(pbt::ctx& c, const Lyt& l, const rules& r)
{
    const auto next = [&](const P3& p)
    {
        std::vector<P3> v{};
        l.foreach_outgoing_clocked_zone(tl<Lyt>(p), [&](const auto& a) { v.push_back(lyt::ground(p3(a))); });
        return v;
    };
    const auto before = [&](const P3& p)
    {
        std::vector<P3> v{};
        l.foreach_incoming_clocked_zone(tl<Lyt>(p), [&](const auto& a) { v.push_back(lyt::ground(p3(a))); });
        return v;
    };
    return grow(c, static_cast<long>(l.x()), static_cast<long>(l.y()), next, before, r);
}
template <typename Lyt>
void materialize(Lyt& l, const circuit& k)
{
    std::vector<mockturtle::signal<Lyt>> s{};
    for (const auto& n : k.g)
    {
        const auto t = tl<Lyt>(n.pos);
        const auto a = [&](const std::size_t i) { return s[static_cast<std::size_t>(n.in[i])]; };
        switch (n.w)
        {
            case what::PI: s.push_back(l.create_pi(n.name, t)); break;
            case what::PO: s.push_back(l.create_po(a(0), n.name, t)); break;
            case what::BUF: s.push_back(l.create_buf(a(0), t)); break;
            case what::NOT: s.push_back(l.create_not(a(0), t)); break;
            case what::AND: s.push_back(l.create_and(a(0), a(1), t)); break;
            case what::OR: s.push_back(l.create_or(a(0), a(1), t)); break;
            case what::NAND: s.push_back(l.create_nand(a(0), a(1), t)); break;
            case what::NOR: s.push_back(l.create_nor(a(0), a(1), t)); break;
            case what::XOR: s.push_back(l.create_xor(a(0), a(1), t)); break;
            case what::XNOR: s.push_back(l.create_xnor(a(0), a(1), t)); break;
            case what::LT: s.push_back(l.create_lt(a(0), a(1), t)); break;
            case what::MAJ: s.push_back(l.create_maj(a(0), a(1), a(2), t)); break;
        }
    }
}
}  // namespace grown
#endif
