// P37: gate libraries: what the cells compute is what the gates compute
#include "grown_common.hpp"
#include "sidb_common.hpp"

#include <fiction/algorithms/physical_design/apply_gate_library.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/fcn_gate_library.hpp>
#include <fiction/technology/inml_topolinano_library.hpp>
#include <fiction/technology/magcad_magnet_count.hpp>
#include <fiction/technology/qca_one_library.hpp>
#include <fiction/technology/sidb_bestagon_library.hpp>
#include <fiction/technology/sim7_mol_library.hpp>
#include <fiction/types.hpp>

#include <mutex>
#include <unordered_map>

using namespace fiction;
using grown::what;
using lyt::P3;
using lyt::p3;
using lyt::s3;
using lyt::tl;

namespace
{
struct cellinfo
{
    char        type{};
    bool        vertical{};
    std::string name{};
};
template <typename C>
std::map<P3, cellinfo> cells_of(const C& l)
{
    std::map<P3, cellinfo> r{};
    l.foreach_cell([&](const auto& cl)
    {
        cellinfo k{};
        k.type = static_cast<char>(l.get_cell_type(cl));
        k.name = l.get_cell_name(cl);
        if constexpr (std::is_same_v<technology<C>, qca_technology>) { k.vertical = l.get_cell_mode(cl) == qca_technology::cell_mode::VERTICAL; }
        r[p3(cl)] = k;
    });
    return r;
}
// sides of a square tile
enum side { N, E, S, W };
side side_of(const P3& from, const P3& to)
{
    const auto [x, y, z] = from;
    const auto [u, v, w] = to;
    return u > x ? E : u < x ? W : v > y ? S : N;
}
struct sides
{
    std::set<int> in{}, out{};
};
sides sides_of(const grown::circuit& k, const std::size_t i)
{
    sides s{};
    for (const auto j : k.g[i].in) { s.in.insert(side_of(k.g[i].pos, k.g[static_cast<std::size_t>(j)].pos)); }
    for (const auto j : k.g[i].out) { s.out.insert(side_of(k.g[i].pos, k.g[static_cast<std::size_t>(j)].pos)); }
    return s;
}

// a Cartesian gate-level layout whose clocking lets data flow in all directions
glr::cart cart_layout(pbt::ctx& c, const long Z, bool& irregular)
{
    const auto X = 1 + static_cast<long>(c.below(6)), Y = 1 + static_cast<long>(c.below(6));
    static const std::vector<std::string> names{"2DDWAVE", "2DDWAVE3", "USE", "RES", "ESR", "SRS", "CFE", "RIPPLE", "BANCS", "OPEN", "OPEN", "OPEN3"};
    const auto nm = c.pick(names);
    c.note(nm + " " + s3({X, Y, Z}));
    glr::cart l{{static_cast<int>(X), static_cast<int>(Y), static_cast<int>(Z)}, *get_clocking_scheme<glr::cart>(nm), c.flip() ? std::string{} : std::string{"a layout"}};
    irregular = nm.substr(0, 4) == "OPEN";
    if (irregular)
    {
        for (long y = 0; y <= Y; ++y)
        {
            for (long x = 0; x <= X; ++x)
            {
                const auto n = static_cast<unsigned char>(c.below(l.num_clocks()));
                for (long z = 0; z <= Z; ++z) { l.assign_clock_number(tl<glr::cart>({x, y, z}), n); }
            }
        }
    }
    return l;
}

// ------------------------------------------------------------------------------------------------ QCA: kink energies
// Within a clock zone the cells settle in the state of lowest energy; next neighbours align, diagonal ones oppose.
double coupling(const P3& a, const cellinfo& ia, const P3& b, const cellinfo& ib)
{
    const auto [x, y, z] = a;
    const auto [u, v, w] = b;
    const auto dx = std::abs(x - u), dy = std::abs(y - v);
    if (z != w) { return dx == 0 && dy == 0 && ia.vertical && ib.vertical ? 1.0 : 0.0; }
    if (dx + dy == 1) { return 1.0; }
    return dx == 1 && dy == 1 ? -0.2 : 0.0;
}
struct settled
{
    std::vector<int> value{};  // +1 or -1 by cell; 0 if several ground states disagree
};
const settled& settle(const std::vector<std::vector<double>>& j, const std::vector<double>& h)
{
    static std::map<std::pair<std::vector<std::vector<double>>, std::vector<double>>, settled> memo{};
    const auto key = std::pair{j, h};
    if (const auto it = memo.find(key); it != memo.end()) { return it->second; }
    const auto n    = h.size();
    double     best = 1e9;
    settled    s{};
    for (std::uint32_t m = 0; m < (1u << n); ++m)
    {
        double e = 0;
        for (std::size_t a = 0; a < n; ++a)
        {
            const double sa = (m >> a) & 1u ? 1 : -1;
            e -= h[a] * sa;
            for (std::size_t b = 0; b < a; ++b) { e -= j[a][b] * sa * ((m >> b) & 1u ? 1 : -1); }
        }
        if (e < best - 1e-9)
        {
            best    = e;
            s.value = std::vector<int>(n);
            for (std::size_t a = 0; a < n; ++a) { s.value[a] = (m >> a) & 1u ? 1 : -1; }
        }
        else if (e < best + 1e-9)
        {
            for (std::size_t a = 0; a < n; ++a) { if (s.value[a] != ((m >> a) & 1u ? 1 : -1)) { s.value[a] = 0; } }
        }
    }
    return memo.emplace(key, s).first->second;
}

template <typename C>
void check_qca(pbt::ctx& c, const grown::circuit& k, const C& cl)
{
    const auto cells = cells_of(cl);
    // cells belong to gates
    std::vector<std::vector<P3>> own(k.g.size());
    std::size_t                  total = 0;
    for (std::size_t i = 0; i < k.g.size(); ++i)
    {
        const auto [tx, ty, tz] = k.g[i].pos;
        for (long y = 5 * ty; y < 5 * ty + 5; ++y)
        {
            for (long x = 5 * tx; x < 5 * tx + 5; ++x)
            {
                const auto it = cells.find({x, y, tz});
                const auto up = cells.find({x, y, 1});
                if (tz == 0)
                {
                    if (it != cells.end() && !(up != cells.end() && up->second.vertical && it->second.vertical)) { own[i].push_back({x, y, 0}); }
                }
                else if (it != cells.end())
                {
                    own[i].push_back({x, y, 1});
                    const auto dn = cells.find({x, y, 0});
                    if (it->second.vertical)
                    {
                        REQUIRE_THAT(dn != cells.end() && dn->second.vertical, "via at " << s3({x, y, 1}) << " has no counterpart in the ground layer");
                        own[i].push_back({x, y, 0});
                    }
                }
            }
        }
        total += own[i].size();
        REQUIRE_THAT(!own[i].empty() && own[i].size() <= 16, "tile " << s3(k.g[i].pos) << " has " << own[i].size() << " cells");
    }
    REQUIRE_EQ(cells.size(), total, "number of cells within tiles of gates");
    // names and pads
    for (std::size_t i = 0; i < k.g.size(); ++i)
    {
        for (const auto& p : own[i])
        {
            const auto& q = cells.at(p);
            const auto  t = static_cast<typename qca_technology::cell_type>(q.type);
            REQUIRE_EQ(qca_technology::is_input_cell(t), k.g[i].w == what::PI && !q.name.empty(), "input cell at " << s3(p));
            REQUIRE_EQ(qca_technology::is_output_cell(t), k.g[i].w == what::PO && !q.name.empty(), "output cell at " << s3(p));
            if (!q.name.empty()) { REQUIRE_EQ(q.name, k.g[i].name, "name of the cell at " << s3(p)); }
        }
        const auto pads = std::count_if(own[i].begin(), own[i].end(), [&](const P3& p) { return !cells.at(p).name.empty(); });
        REQUIRE_EQ(static_cast<int>(pads), k.g[i].w == what::PI || k.g[i].w == what::PO ? 1 : 0, "labelled cells of " << grown::name_of(k.g[i].w) << " at " << s3(k.g[i].pos));
    }
    // what it computes
    const auto runs = std::min<std::uint64_t>(8, 1ull << k.pis);
    for (std::uint64_t run = 0; run < runs; ++run)
    {
        const auto        ins  = k.pis <= 3 ? run : c.u64();
        const auto        want = k.run(ins);
        std::map<P3, int> v{};
        std::size_t       pi = 0;
        for (std::size_t i = 0; i < k.g.size(); ++i)
        {
            std::vector<P3> fr{};
            std::vector<P3> fixed{};
            for (const auto d : k.g[i].in) { fixed.insert(fixed.end(), own[static_cast<std::size_t>(d)].begin(), own[static_cast<std::size_t>(d)].end()); }
            for (const auto& p : own[i])
            {
                const auto t = static_cast<typename qca_technology::cell_type>(cells.at(p).type);
                if (qca_technology::is_const_0_cell(t)) { v[p] = -1, fixed.push_back(p); }
                else if (qca_technology::is_const_1_cell(t)) { v[p] = 1, fixed.push_back(p); }
                else if (qca_technology::is_input_cell(t)) { v[p] = (ins >> pi) & 1u ? 1 : -1, fixed.push_back(p); }
                else { fr.push_back(p); }
            }
            if (k.g[i].w == what::PI) { ++pi; }
            std::vector<double>              h(fr.size(), 0.0);
            std::vector<std::vector<double>> j(fr.size(), std::vector<double>(fr.size(), 0.0));
            for (std::size_t a = 0; a < fr.size(); ++a)
            {
                for (const auto& f : fixed) { h[a] += coupling(fr[a], cells.at(fr[a]), f, cells.at(f)) * v.at(f); }
                for (std::size_t b = 0; b < a; ++b) { j[a][b] = coupling(fr[a], cells.at(fr[a]), fr[b], cells.at(fr[b])); }
            }
            const auto& s = settle(j, h);
            for (std::size_t a = 0; a < fr.size(); ++a) { v[fr[a]] = s.value[a]; }
            // the outgoing ports (and output pads) carry the gate's value
            const auto [tx, ty, tz] = k.g[i].pos;
            const auto sd = sides_of(k, i);
            for (const auto o : sd.out)
            {
                const std::array<std::pair<long, long>, 4> port{{{2, 0}, {4, 2}, {2, 4}, {0, 2}}};
                const auto  d  = port[static_cast<std::size_t>(o)];
                const auto  it = v.find({5 * tx + d.first, 5 * ty + d.second, tz});
                REQUIRE_THAT(it != v.end(), grown::name_of(k.g[i].w) << " at " << s3(k.g[i].pos) << " has no cell at its outgoing port on side " << o);
                REQUIRE_EQ(it->second, want[i] ? 1 : -1, "value of " << grown::name_of(k.g[i].w) << " at " << s3(k.g[i].pos) << " on side " << o << ", inputs " << ins << " in " << k.show());
            }
            for (const auto& p : own[i])
            {
                if (k.g[i].w == what::PO && !cells.at(p).name.empty()) { REQUIRE_EQ(v.at(p), want[i] ? 1 : -1, "value of output " << k.g[i].name << ", inputs " << ins << " in " << k.show()); }
            }
        }
    }
}
template <typename G, typename C>
void check_frame(const G& l, const C& cl, const long w, const long h, const bool overrides)
{
    REQUIRE_EQ(static_cast<long>(cl.x()), (static_cast<long>(l.x()) + 1) * w - 1, "width in cells");
    REQUIRE_EQ(static_cast<long>(cl.y()), (static_cast<long>(l.y()) + 1) * h - 1, "height in cells");
    REQUIRE_EQ(static_cast<long>(cl.z()), static_cast<long>(l.z()), "layers");
    REQUIRE_EQ(cl.get_layout_name(), l.get_layout_name(), "layout name");
    REQUIRE_EQ(static_cast<int>(cl.num_clocks()), static_cast<int>(l.num_clocks()), "number of clocks");
    if (!overrides) { return; }
    for (long y = 0; y <= static_cast<long>(cl.y()); ++y)
    {
        for (long x = 0; x <= static_cast<long>(cl.x()); ++x)
        {
            REQUIRE_EQ(static_cast<int>(cl.get_clock_number(tl<C>({x, y, 0}))), static_cast<int>(l.get_clock_number(tl<G>({x / w, y / h, 0}))), "clock number of the cell at " << x << "," << y);
        }
    }
}
template <typename C>
void qca_case(pbt::ctx& c)
{
    bool irr = false;
    auto l   = cart_layout(c, 1, irr);
    auto k   = grown::grow(c, l, {});
    if (k.pos == 0) { throw pbt::discard{}; }
    grown::materialize(l, k);
    c.note(k.show());
    const auto cl = apply_gate_library<C, qca_one_library>(l);
    check_frame(l, cl, 5, 5, std::is_same_v<coordinate<C>, coordinate<glr::cart>> || !irr);
    REQUIRE_EQ(static_cast<std::size_t>(cl.num_pis()), k.pis, "inputs");
    REQUIRE_EQ(static_cast<std::size_t>(cl.num_pos()), k.pos, "outputs");
    check_qca(c, k, cl);
    c.nontrivial(k.g.size() > 5);
    if (k.crossings) { c.label("crossings"); }
}
}  // namespace

PBT("qca-one", 6000, 150000, "more than five gates and wires")
{
    if (c.below(3)) { qca_case<qca_cell_clk_lyt>(c); }
    else { qca_case<stacked_qca_cell_clk_lyt>(c); }
}

// ------------------------------------------------------------------------------------------------------- molecular QCA
PBT("sim7-mol", 6000, 150000, "more than five gates and wires")
{
    bool irr = false;
    auto l   = cart_layout(c, 0, irr);
    grown::rules r{};
    r.crossings = false;
    auto k = grown::grow(c, l, r);
    if (k.pos == 0) { throw pbt::discard{}; }
    grown::materialize(l, k);
    c.note(k.show());
    const auto cl = apply_gate_library<mol_qca_cell_clk_lyt, sim7_mol_library>(l);
    check_frame(l, cl, 10, 10, true);
    const auto cells = cells_of(cl);
    using T = mol_qca_technology::cell_type;
    const auto phase = [](const cellinfo& i)
    {
        switch (static_cast<T>(i.type))
        {
            case T::NORMAL1: return 1;
            case T::NORMAL2: return 2;
            case T::NORMAL3: return 3;
            case T::NORMAL4: return 4;
            default: return 0;
        }
    };
    std::size_t total = 0;
    for (std::size_t i = 0; i < k.g.size(); ++i)
    {
        const auto&           n = k.g[i];
        const auto [tx, ty, tz] = n.pos;
        const auto at = [&](const long x, const long y) -> const cellinfo*
        {
            if (x < 0 || y < 0 || x > 9 || y > 9) { return nullptr; }
            const auto it = cells.find({10 * tx + x, 10 * ty + y, tz});
            return it == cells.end() ? nullptr : &it->second;
        };
        for (long y = 0; y < 10; ++y) { for (long x = 0; x < 10; ++x) { total += at(x, y) != nullptr; } }
        static const std::array<std::array<std::pair<long, long>, 2>, 4> port{{{{{4, 0}, {5, 0}}}, {{{9, 4}, {9, 5}}}, {{{4, 9}, {5, 9}}}, {{{0, 4}, {0, 5}}}}};
        const auto sd = sides_of(k, i);
        int        consts = 0;
        for (int s = 0; s < 4; ++s)
        {
            for (const auto& [x, y] : port[static_cast<std::size_t>(s)])
            {
                const auto* q     = at(x, y);
                const auto  where = std::string(grown::name_of(n.w)) + " at " + s3(n.pos) + " side " + std::to_string(s) + " in " + k.show();
                if (sd.in.count(s))
                {
                    REQUIRE_THAT(q != nullptr, "no cell at the incoming port of " << where);
                    if (n.w == what::PO) { REQUIRE_THAT(static_cast<T>(q->type) == T::OUTPUT && q->name == n.name, "no output cell '" << n.name << "' in " << where); }
                    else { REQUIRE_EQ(phase(*q), 1, "phase of the incoming port of " << where); }
                }
                else if (sd.out.count(s))
                {
                    REQUIRE_THAT(q != nullptr, "no cell at the outgoing port of " << where);
                    if (n.w == what::PI) { REQUIRE_THAT(static_cast<T>(q->type) == T::INPUT && q->name == n.name, "no input cell '" << n.name << "' in " << where); }
                    else { REQUIRE_EQ(phase(*q), 4, "phase of the outgoing port of " << where); }
                }
                else if (q != nullptr)
                {
                    REQUIRE_THAT((n.w == what::AND && static_cast<T>(q->type) == T::CONST_0) || (n.w == what::OR && static_cast<T>(q->type) == T::CONST_1), "unexpected cell at the unused port of " << where);
                    ++consts;
                }
            }
        }
        REQUIRE_EQ(consts, n.w == what::AND || n.w == what::OR ? 2 : 0, "constant cells of " << grown::name_of(n.w) << " at " << s3(n.pos));
        if (n.w == what::PI || n.w == what::PO) { continue; }
        // signals run along cells of non-decreasing phase from every incoming to every outgoing port; inverters couple diagonally
        for (const auto si : sd.in)
        {
            for (const bool diag : {false, true})
            {
                std::set<std::pair<long, long>>    seen{};
                std::vector<std::pair<long, long>> todo{port[static_cast<std::size_t>(si)][0]};
                while (!todo.empty())
                {
                    const auto [x, y] = todo.back();
                    todo.pop_back();
                    if (!seen.insert({x, y}).second) { continue; }
                    for (long dy = -1; dy <= 1; ++dy)
                    {
                        for (long dx = -1; dx <= 1; ++dx)
                        {
                            if (std::abs(dx) + std::abs(dy) == 0 || (!diag && std::abs(dx) + std::abs(dy) == 2)) { continue; }
                            const auto* q = at(x + dx, y + dy);
                            if (q != nullptr && phase(*q) >= phase(*at(x, y)) && phase(*q) <= phase(*at(x, y)) + 1) { todo.emplace_back(x + dx, y + dy); }
                        }
                    }
                }
                for (const auto so : sd.out)
                {
                    const auto reach = seen.count(port[static_cast<std::size_t>(so)][0]) && seen.count(port[static_cast<std::size_t>(so)][1]);
                    REQUIRE_EQ(reach, diag || n.w != what::NOT, grown::name_of(n.w) << " at " << s3(n.pos) << " from side " << si << " to side " << so << (diag ? " with" : " without") << " diagonal steps");
                }
            }
        }
    }
    REQUIRE_EQ(cells.size(), total, "number of cells within tiles of gates");
    c.nontrivial(k.g.size() > 5);
}

// ------------------------------------------------------------------------------------------------------------- Bestagon
namespace
{
using xy  = std::pair<long, long>;  // dots of a tile

/// The negatively charged dots in the ground state (two charge states, mu = -0.32 eV, eps_r = 5.6, lambda_tf = 5 nm): of all
/// charge distributions that neither adding, removing, nor moving an electron improves, the one with the lowest energy.
std::vector<bool> ground_state(const std::vector<xy>& d)
{
    const auto          n = d.size();
    std::vector<double> v(n * n, 0.0);
    const auto          pos = [](const xy& p) { return std::pair{0.384 * static_cast<double>(p.first), 0.768 * static_cast<double>(p.second / 2) + 0.225 * static_cast<double>(p.second % 2)}; };
    for (std::size_t i = 0; i < n; ++i)
    {
        for (std::size_t j = 0; j < n; ++j)
        {
            if (i == j) { continue; }
            const auto [ax, ay] = pos(d[i]);
            const auto [bx, by] = pos(d[j]);
            const auto r        = std::hypot(ax - bx, ay - by);
            v[i * n + j]        = 1.43996454 / 5.6 / r * std::exp(-r / 5.0);
        }
    }
    // rest[i * n + j]: what dots from the i-th one on can add to the potential at the j-th one
    std::vector<double> rest((n + 1) * n, 0.0);
    for (std::size_t i = n; i-- > 0;) { for (std::size_t j = 0; j < n; ++j) { rest[i * n + j] = rest[(i + 1) * n + j] + v[i * n + j]; } }
    constexpr double    mu = 0.32, eps = 1e-6;
    std::vector<char>   cur(n, 0), best(n, 0);
    std::vector<double> loc(n, 0.0);  // potential at every dot (as energy of another electron)
    double              min = 1e9;
    const auto          go  = [&](const auto& self, const std::size_t i, const double e) -> void
    {
        if (e >= min) { return; }
        for (std::size_t j = 0; j < i; ++j)
        {
            if (cur[j] ? loc[j] > mu + eps : loc[j] + rest[i * n + j] < mu - eps) { return; }
        }
        if (i == n)
        {
            for (std::size_t p = 0; p < n; ++p)
            {
                for (std::size_t q = 0; q < n; ++q)
                {
                    if (cur[p] && !cur[q] && loc[q] - loc[p] - v[p * n + q] < -eps) { return; }
                }
            }
            min  = e;
            best = cur;
            return;
        }
        for (const bool charged : {true, false})
        {
            cur[i] = charged;
            if (charged) { for (std::size_t j = 0; j < n; ++j) { loc[j] += v[i * n + j]; } }
            self(self, i + 1, e + (charged ? loc[i] : 0.0));
            if (charged) { for (std::size_t j = 0; j < n; ++j) { loc[j] -= v[i * n + j]; } }
        }
        cur[i] = 0;
    };
    go(go, 0, 0.0);
    return {best.begin(), best.end()};
}

/// What the dots of a tile compute: for every assignment of the incoming sides the values on the outgoing ones. Pairs run
/// diagonally with a pitch of (6,4); incoming pairs are set by one electron in the pair before the tile's first one.
/// W stands for north-west (incoming) or south-west (outgoing), E for north-east or south-east.
std::vector<std::vector<int>> compute(const std::vector<xy>& dots, const std::set<int>& ins, const std::set<int>& outs)
{
    static std::map<std::tuple<std::vector<xy>, std::set<int>, std::set<int>>, std::vector<std::vector<int>>> memo{};
    const auto key = std::tuple{dots, ins, outs};
    if (const auto it = memo.find(key); it != memo.end()) { return it->second; }
    std::vector<std::vector<int>> r{};
    for (std::uint64_t a = 0; a < (1ull << ins.size()); ++a)
    {
        std::vector<xy> d = dots;
        std::size_t     k = 0;
        for (const auto s : ins)
        {
            const auto [x, y] = (a >> k++) & 1u ? xy{12, 4} : xy{10, 2};
            d.emplace_back(s == W ? x : 58 - x, y);
        }
        for (const auto s : outs) { d.emplace_back(s == E ? 46 : 58 - 46, 40); }
        std::sort(d.begin(), d.end(), [](const auto& p, const auto& q) { return std::pair{p.second, p.first} < std::pair{q.second, q.first}; });
        const auto       best = ground_state(d);
        std::vector<int> v{};
        for (const auto s : outs)
        {
            const auto neg = [&](const long x, const long y)
            {
                const auto it = std::find(d.begin(), d.end(), xy{s == E ? x : 58 - x, y});
                return it != d.end() && best[static_cast<std::size_t>(it - d.begin())];
            };
            const bool up = neg(40, 36), dn = neg(42, 38);
            v.push_back(up == dn ? -1 : dn);
        }
        r.push_back(v);
    }
    memo.emplace(key, r);
    return r;
}
template <typename H>
void bestagon_case(pbt::ctx& c)
{
    const auto X = static_cast<long>(c.below(5)), Y = 1 + static_cast<long>(c.below(7));
    H          l{{static_cast<int>(X), static_cast<int>(Y), 1}, *get_clocking_scheme<H>(c.below(3) ? "ROW" : "ROW3"), c.flip() ? std::string{} : std::string{"a layout"}};
    grown::rules r{};
    r.two    = {what::AND, what::OR, what::NAND, what::NOR, what::XOR, what::XNOR};
    r.three  = {};
    r.fanout = 2;
    auto k = grown::grow(c, l, r);
    if (k.pos == 0) { throw pbt::discard{}; }
    grown::materialize(l, k);
    c.note(s3({X, Y, 1}) + " " + k.show());
    using C       = sidb_cell_clk_lyt_cube;
    const auto cl = apply_gate_library<C, sidb_bestagon_library>(l);
    REQUIRE_EQ(cl.get_layout_name(), l.get_layout_name(), "layout name");
    const auto  cells = cells_of(cl);
    std::set<P3> seen{};
    std::map<std::pair<long, long>, std::vector<std::size_t>> tiles{};
    for (std::size_t i = 0; i < k.g.size(); ++i) { tiles[{std::get<0>(k.g[i].pos), std::get<1>(k.g[i].pos)}].push_back(i); }
    long maxx = 0, maxy = 0;
    const auto origin = [&](const long tx, const long ty)
    {
        const bool shifted = (ty % 2 == 1) == std::is_same_v<H, glr::h_or>;
        return xy{tx * 60 + (shifted ? 30 : 0), ty * 34};
    };
    for (long ty = 0; ty <= Y; ++ty) { for (long tx = 0; tx <= X; ++tx) { maxx = std::max(maxx, origin(tx, ty).first + 59), maxy = std::max(maxy, origin(tx, ty).second + 45); } }
    REQUIRE_EQ(static_cast<long>(cl.x()), maxx, "width in cells");
    REQUIRE_EQ(static_cast<long>(cl.y()), maxy, "height in cells");
    for (const auto& [t, gs] : tiles)
    {
        const auto [ox, oy] = origin(t.first, t.second);
        // the dots of the tile proper lie between the first pair of incoming wires and the last one of outgoing ones
        std::vector<xy> dots{};
        for (const auto& [p, q] : cells)
        {
            const auto [x, y, z] = p;
            if (x >= ox && x < ox + 60 && y >= oy + 6 && y < oy + 40)
            {
                dots.emplace_back(x - ox, y - oy);
                seen.insert(p);
            }
        }
        // sides by the tiles the gates are connected with
        const auto hs = [&](const std::size_t i, const int j) { return origin(std::get<0>(k.g[static_cast<std::size_t>(j)].pos), std::get<1>(k.g[static_cast<std::size_t>(j)].pos)).first < origin(std::get<0>(k.g[i].pos), std::get<1>(k.g[i].pos)).first ? W : E; };
        std::map<int, int> in_of{};   // side -> driver
        std::map<int, int> out_of{};  // side -> gate
        bool               pad = false;
        for (const auto i : gs)
        {
            for (const auto j : k.g[i].in) { in_of[hs(i, j)] = j; }
            for (const auto j : k.g[i].out) { out_of[hs(i, j)] = static_cast<int>(i); }
            pad = pad || k.g[i].w == what::PI || k.g[i].w == what::PO;
        }
        std::set<int> is{}, os{};
        for (const auto& [s, j] : in_of) { is.insert(s); }
        for (const auto& [s, j] : out_of) { os.insert(s); }
        const auto id = std::string(grown::name_of(k.g[gs[0]].w)) + (gs.size() > 1 ? " with a crossing" : "") + " at " + s3(k.g[gs[0]].pos);
        if (pad)
        {
            // a wire that starts or ends here: the missing side does not matter
            const auto& n = k.g[gs[0]];
            bool ok = false;
            for (const int o : {W, E})
            {
                const auto a  = n.w == what::PI ? std::set<int>{o} : is;
                const auto b  = n.w == what::PI ? os : std::set<int>{o};
                ok = ok || compute(dots, a, b) == std::vector<std::vector<int>>{{0}, {1}};
            }
            REQUIRE_THAT(ok, id << " is no wire");
            continue;
        }
        const auto got = compute(dots, is, os);
        for (std::uint64_t a = 0; a < (1ull << is.size()); ++a)
        {
            std::map<int, bool> v{};
            std::size_t         b = 0;
            for (const auto s : is) { v[in_of[s]] = (a >> b++) & 1u; }
            std::size_t o = 0;
            REQUIRE_EQ(got[a].size(), os.size(), "simulated outputs of " << id);
            for (const auto s : os)
            {
                const auto&       n = k.g[static_cast<std::size_t>(out_of[s])];
                std::vector<bool> x{};
                for (const auto j : n.in) { x.push_back(v.at(j)); }
                REQUIRE_EQ(got[a][o++], static_cast<int>(grown::eval(n.w, x)), "value on side " << (s == E ? "SE" : "SW") << " of " << id << " for inputs " << a);
            }
        }
    }
    REQUIRE_EQ(seen.size(), cells.size(), "dots within tiles of gates");
    c.nontrivial(k.g.size() > 5);
    if (k.crossings) { c.label("crossings"); }
    // with defects on the surface
    if (c.below(8) == 0)
    {
        using D = sidb_defect_surface<C>;
        D d{};
        std::map<P3, sidb_defect> m{};
        for (std::uint64_t i = 0; i < c.below(6); ++i)
        {
            const auto  p = P3{static_cast<long>(c.below(200)), static_cast<long>(c.below(200)), 0};
            sidb_defect f{c.flip() ? sidb_defect_type::DB : sidb_defect_type::SI_VACANCY, static_cast<int>(c.below(3)) - 1, 5.6, 5};
            d.assign_sidb_defect(tl<D>(p), f);
            m.insert_or_assign(p, f);
        }
        const auto dl = apply_gate_library_to_defective_surface<D, sidb_bestagon_library>(l, d);
        const auto dc = cells_of(dl);
        REQUIRE_EQ(dc.size(), cells.size(), "dots on the surface with defects");
        for (const auto& [p, q] : dc) { REQUIRE_THAT(cells.count(p), "additional dot " << s3(p) << " on the surface with defects"); }
        REQUIRE_EQ(static_cast<std::size_t>(dl.num_defects()), m.size(), "number of defects");
        for (const auto& [p, f] : m) { REQUIRE_THAT(dl.get_sidb_defect(tl<D>(p)) == f, "defect at " << s3(p)); }
    }
}
}  // namespace

PBT("bestagon", 2000, 40000, "more than five gates and wires")
{
    if (c.flip()) { bestagon_case<glr::h_or>(c); }
    else { bestagon_case<glr::h_er>(c); }
}

// ------------------------------------------------------------------------------------------------- unsupported contents
PBT("unsupported", 8000, 100000, "always")
{
    c.nontrivial(true);
    const auto which = c.below(3);
    const auto check = [&](auto l, auto tag, auto cell_tag, const what bad)
    {
        using lib = typename decltype(tag)::type;
        using C   = typename decltype(cell_tag)::type;
        using L   = decltype(l);
        grown::rules r{};
        r.three     = {};
        r.fanout    = 2;
        r.crossings = false;
        auto k = grown::grow(c, l, r);
        std::vector<std::size_t> cand{};
        for (std::size_t i = 0; i < k.g.size(); ++i) { if (k.g[i].in.size() == 2) { cand.push_back(i); } }
        if (cand.empty()) { throw pbt::discard{}; }
        const auto i = c.pick(cand);
        k.g[i].w     = bad;
        grown::materialize(l, k);
        c.note(k.show());
        try
        {
            const auto cl = apply_gate_library<C, lib>(l);
            c.fail("no exception for the " + std::string(grown::name_of(bad)) + " at " + s3(k.g[i].pos));
        }
        catch (const unsupported_gate_type_exception<tile<L>>& e)
        {
            REQUIRE_EQ(s3(p3(e.where())), s3(k.g[i].pos), "position of the unsupported gate");
        }
    };
    if (which == 2)
    {
        glr::h_or l{{3, 5, 1}, *get_clocking_scheme<glr::h_or>("ROW")};
        check(l, std::type_identity<sidb_bestagon_library>{}, std::type_identity<sidb_cell_clk_lyt_cube>{}, what::LT);
    }
    else
    {
        bool       irr = false;
        const auto l   = cart_layout(c, 1, irr);
        const auto bad = c.pick(std::vector<what>{what::XOR, what::NAND, what::NOR, what::XNOR, what::LT});
        if (which == 0) { check(l, std::type_identity<qca_one_library>{}, std::type_identity<qca_cell_clk_lyt>{}, bad); }
        else { check(l, std::type_identity<sim7_mol_library>{}, std::type_identity<mol_qca_cell_clk_lyt>{}, bad); }
    }
}

// -------------------------------------------------------------------------------------------------------- magnet counts
PBT("magnets", 4000, 100000, "at least one inverter")
{
    using T = inml_technology::cell_type;
    inml_cell_clk_lyt l{{20, 20, 1}, "magnets"};
    std::uint64_t     others = 0, chains = 0;
    for (std::uint64_t i = 0, n = c.below(12); i < n; ++i)
    {
        const auto x = static_cast<int>(c.below(16)), y = static_cast<int>(i);
        if (c.flip())
        {
            for (int k = 0; k < 4; ++k) { l.assign_cell_type({x + k, y}, T::INVERTER_MAGNET); }
            ++chains;
        }
        else
        {
            l.assign_cell_type({x, y}, c.pick(std::vector<T>{T::NORMAL, T::INPUT, T::OUTPUT, T::FANOUT_COUPLER_MAGNET, T::CROSSWIRE_MAGNET}));
            ++others;
        }
    }
    c.nontrivial(chains > 0);
    REQUIRE_EQ(magcad_magnet_count(l), others + chains, "magnets with " << chains << " chains of four inverters and " << others << " other magnets");
}
