// SiDB gates built from BDL wires, with everything the library has to find out about them known by construction (P33 and later).
#ifndef VERIF_GATES_COMMON_HPP
#define VERIF_GATES_COMMON_HPP

#include "sidb_common.hpp"

#include <fiction/algorithms/iter/bdl_input_iterator.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_pairs.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_wires.hpp>
#include <fiction/algorithms/simulation/sidb/is_operational.hpp>
#include <fiction/technology/cell_ports.hpp>

#include <kitty/dynamic_truth_table.hpp>

namespace gm
{

using sm::pos;
using sm::world;

enum class flow
{
    S,
    N,
    E,
    W
};

/// a chain of BDL pairs in the direction of the information flow; each pair lists the dot passed first, then the other
struct wire
{
    std::vector<std::array<pos, 2>> pairs;
    bool                            in{}, out{};  // starts with an input pair, ends with an output pair
};

struct gate
{
    flow             dir{};
    std::vector<wire> ins, outs, boths;  // boths: a wire from an input directly to an output (then ins and outs are empty)
    std::vector<pos>  canvas;            // LOGIC dots
    std::vector<pos>  extra;             // isolated NORMAL dots
    std::vector<kitty::dynamic_truth_table> spec;
    bool              absence{};  // 0 is encoded by the absence of both input dots

    [[nodiscard]] std::size_t num_in() const { return boths.empty() ? ins.size() : boths.size(); }
    [[nodiscard]] std::size_t num_out() const { return boths.empty() ? outs.size() : boths.size(); }
    [[nodiscard]] const wire& in(const std::size_t i) const { return boths.empty() ? ins[i] : boths[i]; }
    [[nodiscard]] const wire& out(const std::size_t i) const { return boths.empty() ? outs[i] : boths[i]; }

    [[nodiscard]] std::vector<pos> permanent() const
    {
        std::vector<pos> r;
        for (const auto* ws : {&ins, &outs, &boths})
        {
            for (const auto& w : *ws)
            {
                for (std::size_t k = w.in ? 1 : 0; k < w.pairs.size(); ++k) { r.insert(r.end(), w.pairs[k].begin(), w.pairs[k].end()); }
            }
        }
        r.insert(r.end(), canvas.begin(), canvas.end());
        r.insert(r.end(), extra.begin(), extra.end());
        return r;
    }
    [[nodiscard]] static bool bit(const std::uint64_t pattern, const std::size_t i, const std::size_t n) { return (pattern >> (n - 1 - i)) & 1u; }
    /// the perturbers present for an input pattern (first input = most significant bit)
    [[nodiscard]] std::vector<pos> perturbers(const std::uint64_t pattern) const
    {
        std::vector<pos> r;
        for (std::size_t i = 0; i < num_in(); ++i)
        {
            const auto& p = in(i).pairs.front();
            if (bit(pattern, i, num_in())) { r.push_back(p[1]); }
            else if (!absence) { r.push_back(p[0]); }
        }
        return r;
    }
    [[nodiscard]] std::vector<pos> dots(const std::uint64_t pattern) const
    {
        auto r = permanent();
        for (const auto& p : perturbers(pattern)) { r.push_back(p); }
        return r;
    }
};

inline double nmd(const pos& a, const pos& b) { return sm::dist(sm::L100, a, b); }

inline pos oriented(const flow f, const int along, const int across)
{
    switch (f)
    {
        case flow::S: return {across, along, 0};
        case flow::N: return {across, -along, 0};
        case flow::E: return {along, across, 0};
        default: return {-along, across, 0};
    }
}

/// a chain of n pairs starting `start` steps along and `lane` across; style 0 = straight, 1 = slanted to one side, 2 = to the other
inline wire chain(const flow f, const int start, const int lane, const int style, const std::size_t n)
{
    wire       w;
    const bool vertical = f == flow::S || f == flow::N;
    for (std::size_t k = 0; k < n; ++k)
    {
        const int i = static_cast<int>(k);
        if (vertical && style == 0) { w.pairs.push_back({oriented(f, start + 3 * i, lane), oriented(f, start + 3 * i + 1, lane)}); }
        else if (vertical)
        {
            const int s = style == 1 ? 1 : -1;
            w.pairs.push_back({oriented(f, start + 2 * i, lane + s * 6 * i), oriented(f, start + 2 * i + 1, lane + s * (6 * i + 2))});
        }
        else { w.pairs.push_back({oriented(f, start + 6 * i, lane), oriented(f, start + 6 * i + 2, lane)}); }
    }
    return w;
}

inline bool separated(const std::vector<pos>& a, const std::vector<pos>& b, const double d)
{
    for (const auto& x : a)
    {
        for (const auto& y : b)
        {
            if (nmd(x, y) < d) { return false; }
        }
    }
    return true;
}
inline std::vector<pos> dots_of(const wire& w)
{
    std::vector<pos> r;
    for (const auto& p : w.pairs) { r.insert(r.end(), p.begin(), p.end()); }
    return r;
}

struct gate_opts
{
    std::size_t max_permanent = 9;
    bool        canvas        = true;
    bool        only_south_east = false;
};

/// a random gate; all coordinates are non-negative
inline gate gen_gate(pbt::ctx& c, const gate_opts& o = {})
{
    gate g;
    g.dir               = o.only_south_east ? c.pick(std::vector<flow>{flow::S, flow::S, flow::E}) : c.pick(std::vector<flow>{flow::S, flow::S, flow::N, flow::E, flow::W});
    const bool vertical = g.dir == flow::S || g.dir == flow::N;
    g.absence           = c.below(4) == 0;
    const auto styles   = vertical ? 3u : 1u;
    const int  step     = vertical ? 3 : 6;
    if (c.below(5) == 0)
    {
        // one wire from an input to an output
        auto w = chain(g.dir, 0, 0, static_cast<int>(c.below(styles)), 3 + c.below(2));
        w.in = w.out = true;
        g.boths.push_back(w);
    }
    else
    {
        const std::size_t nin = 1 + c.below(2), nout = 1 + c.below(4) / 3;
        const std::size_t lin = 2, lout = g.dir == flow::N || g.dir == flow::W ? 2 : 1 + c.below(2);
        const int         gap_in = 6 + static_cast<int>(c.below(10)), gap_out = 6 + static_cast<int>(c.below(10));
        const int         unit   = vertical ? 1 : 0;
        const auto        lane   = [&](const int k, const int gap) { return vertical ? k * gap : k * (3 + gap / 4); };
        (void)unit;
        const int style_mode = static_cast<int>(c.below(4));
        for (std::size_t i = 0; i < nin; ++i)
        {
            const int style = !vertical ? 0 : style_mode == 0 ? 0 : style_mode == 1 ? (i == 0 ? 1 : 2) : static_cast<int>(c.below(styles));
            auto      w     = chain(g.dir, 0, lane(static_cast<int>(i), gap_in + (style_mode == 1 ? 12 : 0)), style, lin);
            w.in            = true;
            g.ins.push_back(w);
        }
        const int begin = step * static_cast<int>(lin) + static_cast<int>(c.below(vertical ? 4 : 8));
        const int shift = static_cast<int>(c.below(9));
        const int ostyle = static_cast<int>(c.below(styles));
        for (std::size_t i = 0; i < nout; ++i)
        {
            auto w = chain(g.dir, begin, lane(static_cast<int>(i), gap_out) + (vertical ? shift : shift / 3), ostyle, lout);
            w.out  = true;
            g.outs.push_back(w);
        }
        // the wires must be recognizable as such
        std::vector<const wire*> all;
        for (const auto& w : g.ins) { all.push_back(&w); }
        for (const auto& w : g.outs) { all.push_back(&w); }
        for (std::size_t i = 0; i < all.size(); ++i)
        {
            for (std::size_t j = i + 1; j < all.size(); ++j)
            {
                if (!separated(dots_of(*all[i]), dots_of(*all[j]), 2.05)) { throw pbt::discard{}; }
            }
        }
        // mixed slants: the lanes must keep their order
        const auto by_position = [](const wire& a, const wire& b)
        {
            const auto lo = [](const wire& w, const std::size_t k) { return std::min(w.pairs[k][0], w.pairs[k][1]); };
            for (std::size_t k = 0; k < a.pairs.size(); ++k)
            {
                if (!(lo(a, k) < lo(b, k))) { return false; }
            }
            return true;
        };
        for (std::size_t i = 0; i + 1 < g.ins.size(); ++i)
        {
            if (!by_position(g.ins[i], g.ins[i + 1])) { throw pbt::discard{}; }
        }
        for (std::size_t i = 0; i + 1 < g.outs.size(); ++i)
        {
            if (!by_position(g.outs[i], g.outs[i + 1])) { throw pbt::discard{}; }
        }
    }
    // single dots of the canvas and elsewhere
    auto             perm = g.permanent();
    std::vector<pos> everything = perm;
    for (const auto* ws : {&g.ins, &g.boths})
    {
        for (const auto& w : *ws) { everything.insert(everything.end(), w.pairs.front().begin(), w.pairs.front().end()); }
    }
    if (perm.size() > o.max_permanent) { throw pbt::discard{}; }
    int x0 = 1000, x1 = -1000, y0 = 1000, y1 = -1000;
    for (const auto& p : everything)
    {
        x0 = std::min(x0, p.x);
        x1 = std::max(x1, p.x);
        y0 = std::min(y0, p.y);
        y1 = std::max(y1, p.y);
    }
    const auto free_pos = [&](const double d) -> pos
    {
        for (int k = 0; k < 40; ++k)
        {
            const pos p{x0 - 3 + static_cast<int>(c.below(static_cast<std::uint64_t>(x1 - x0 + 7))), y0 - 1 + static_cast<int>(c.below(static_cast<std::uint64_t>(y1 - y0 + 3))), static_cast<int>(c.below(2))};
            if (separated({p}, everything, d)) { return p; }
        }
        throw pbt::discard{};
    };
    if (o.canvas)
    {
        for (auto n = c.below(4); n > 0 && perm.size() + g.canvas.size() < o.max_permanent; --n)
        {
            g.canvas.push_back(free_pos(c.below(8) == 0 ? 0.2 : 0.8));
            everything.push_back(g.canvas.back());
        }
    }
    if (c.below(4) == 0 && perm.size() + g.canvas.size() < o.max_permanent)
    {
        g.extra.push_back(free_pos(2.05));
        everything.push_back(g.extra.back());
    }
    // shift to non-negative coordinates
    int mx = 0, my = 0;
    for (const auto& p : everything)
    {
        mx = std::min(mx, p.x);
        my = std::min(my, p.y);
    }
    const int dx = -mx + static_cast<int>(c.below(3)), dy = -my + static_cast<int>(c.below(3));
    for (auto* ws : {&g.ins, &g.outs, &g.boths})
    {
        for (auto& w : *ws)
        {
            for (auto& p : w.pairs)
            {
                for (auto& q : p) { q.x += dx, q.y += dy; }
            }
        }
    }
    for (auto* ps : {&g.canvas, &g.extra})
    {
        for (auto& q : *ps) { q.x += dx, q.y += dy; }
    }
    return g;
}

template <typename Lyt>
Lyt build(const gate& g)
{
    using T = typename Lyt::cell_type;
    Lyt l{};
    const auto put = [&](const pos& p, const auto t) { l.assign_cell_type(sm::cell<Lyt>(p), t); };
    for (const auto* ws : {&g.ins, &g.outs, &g.boths})
    {
        for (const auto& w : *ws)
        {
            for (std::size_t k = 0; k < w.pairs.size(); ++k)
            {
                const auto t = w.in && k == 0 ? T::INPUT : w.out && k + 1 == w.pairs.size() ? T::OUTPUT : T::NORMAL;
                put(w.pairs[k][0], t);
                put(w.pairs[k][1], t);
            }
        }
    }
    for (const auto& p : g.canvas) { put(p, T::LOGIC); }
    for (const auto& p : g.extra) { put(p, T::NORMAL); }
    return l;
}

inline std::string describe(const gate& g)
{
    std::ostringstream s;
    s << "flow " << "SNEW"[static_cast<int>(g.dir)] << (g.absence ? " absence-encoded" : "");
    const auto ws = [&](const char* n, const std::vector<wire>& v)
    {
        for (const auto& w : v)
        {
            s << ' ' << n;
            for (const auto& p : w.pairs) { s << ' ' << sm::str(p[0]) << '-' << sm::str(p[1]); }
        }
    };
    ws("input wire", g.ins);
    ws("output wire", g.outs);
    ws("input-output wire", g.boths);
    for (const auto& p : g.canvas) { s << " canvas " << sm::str(p); }
    for (const auto& p : g.extra) { s << " extra " << sm::str(p); }
    for (const auto& t : g.spec)
    {
        s << " spec ";
        for (std::uint64_t i = 0; i < t.num_bits(); ++i) { s << kitty::get_bit(t, i); }
    }
    return s.str();
}

/// the physical situation for an input pattern
inline world world_of(const gate& g, const world& params, const std::uint64_t pattern)
{
    world w = params;
    w.dots  = g.dots(pattern);
    w.freeze();
    return w;
}

/// a charge configuration by position
struct config
{
    const world*            w;
    const std::vector<int>* n;
    [[nodiscard]] int at(const pos& p) const
    {
        for (std::size_t i = 0; i < w->dots.size(); ++i)
        {
            if (w->dots[i] == p) { return (*n)[i]; }
        }
        return 99;
    }
};

/// the pair carries the bit: the electron is at the later dot for 1 and at the earlier one for 0
inline bool encodes(const config& s, const std::array<pos, 2>& p, const bool b) { return s.at(p[b ? 1 : 0]) == -1 && s.at(p[b ? 0 : 1]) == 0; }

inline bool outputs_match(const gate& g, const config& s, const std::uint64_t pattern)
{
    for (std::size_t o = 0; o < g.num_out(); ++o)
    {
        if (!encodes(s, g.out(o).pairs.back(), kitty::get_bit(g.spec[o], pattern))) { return false; }
    }
    return true;
}

inline bool has_kinks(const gate& g, const config& s, const std::uint64_t pattern)
{
    for (std::size_t i = 0; i < g.num_in(); ++i)
    {
        const auto& w = g.in(i);
        for (std::size_t k = 1; k + (w.out ? 1 : 0) < w.pairs.size(); ++k)
        {
            if (!encodes(s, w.pairs[k], gate::bit(pattern, i, g.num_in()))) { return true; }
        }
    }
    for (std::size_t o = 0; o < g.num_out(); ++o)
    {
        const auto& w = g.out(o);
        for (std::size_t k = w.in ? 1 : 0; k < w.pairs.size(); ++k)
        {
            if (!encodes(s, w.pairs[k], kitty::get_bit(g.spec[o], pattern))) { return true; }
        }
    }
    return false;
}

/// what happens for one input pattern
struct verdict
{
    bool sure = true;           // no configuration is too close to a threshold
    bool positive{};            // positive charges can occur
    bool none{};                // there is no physically valid charge distribution
    bool mismatch{}, kinks{};   // some ground state does not show the right output; shows kinks although the output is right
    sm::spectrum spec;
    world        w;
    std::vector<std::vector<int>> ground;

    [[nodiscard]] bool operational(const bool reject_kinks, const unsigned base) const { return !(base == 2 && positive) && !none && !mismatch && !(reject_kinks && kinks); }
};

inline bool positive_possible(const world& w, bool& sure)
{
    const std::vector<int> n(w.dots.size(), -1);
    bool                   r = false;
    for (std::size_t i = 0; i < n.size(); ++i)
    {
        const double u = -w.internal(i, n) + w.mu_plus();
        if (std::abs(u) < 4e-6) { sure = false; }
        r |= u > 0;
    }
    return r;
}

inline verdict judge(const gate& g, const world& params, const std::uint64_t pattern)
{
    verdict v;
    v.w        = world_of(g, params, pattern);
    v.positive = positive_possible(v.w, v.sure);
    v.spec     = sm::brute(v.w, params.base);
    v.none     = v.spec.valid.empty();
    double emin = 1e300;
    for (const auto& [n, e] : v.spec.valid) { emin = std::min(emin, e); }
    for (const auto& [n, e] : v.spec.unsure)
    {
        if (e < emin + 3e-6) { v.sure = false; }
    }
    for (const auto& [n, e] : v.spec.valid)
    {
        const double d = e - emin;
        if (d > 0.5e-6 && d < 2e-6) { v.sure = false; }
        if (d >= 1e-6) { continue; }
        v.ground.push_back(n);
        const config s{&v.w, &n};
        if (!outputs_match(g, s, pattern)) { v.mismatch = true; }
        else if (has_kinks(g, s, pattern)) { v.kinks = true; }
    }
    return v;
}

/// chooses a specification: what the ground states show where they show anything, a standard function, or noise
inline void gen_spec(pbt::ctx& c, gate& g, const world& params)
{
    const auto n = g.num_in();
    g.spec.assign(g.num_out(), kitty::dynamic_truth_table(static_cast<unsigned>(n)));
    const auto mode = c.below(5);
    for (std::uint64_t p = 0; p < (1ull << n); ++p)
    {
        const auto w = world_of(g, params, p);
        const auto s = mode <= 2 ? sm::brute(w, params.base) : sm::spectrum{};
        const std::vector<int>* best = nullptr;
        double                  e    = 1e300;
        for (const auto& [k, x] : s.valid)
        {
            if (x < e) { e = x, best = &k; }
        }
        for (std::size_t o = 0; o < g.num_out(); ++o)
        {
            bool b = c.flip();
            if (best) { b = config{&w, best}.at(g.out(o).pairs.back()[1]) == -1; }
            if (b) { kitty::set_bit(g.spec[o], p); }
        }
    }
    if (mode == 2)
    {
        const auto o = c.below(g.num_out());
        kitty::flip_bit(g.spec[o], c.below(1ull << n));
    }
}

inline fiction::bdl_input_iterator_params iterator_params(const gate& g)
{
    fiction::bdl_input_iterator_params p{};
    p.input_bdl_config = g.absence ? fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED : fiction::bdl_input_iterator_params::input_bdl_configuration::PERTURBER_DISTANCE_ENCODED;
    return p;
}

template <typename Lyt>
std::set<pos> positions(const Lyt& l)
{
    std::set<pos> r;
    l.foreach_cell([&](const auto& x) { r.insert(sm::position<Lyt>(x)); });
    return r;
}

}  // namespace gm

#endif
