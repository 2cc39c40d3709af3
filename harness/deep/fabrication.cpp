// P42: defects and misplaced SiDBs: defect influence, clearance, displacement robustness; random layouts; time to solution
#include "gates_common.hpp"

#include <fiction/algorithms/simulation/sidb/defect_clearance.hpp>
#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>
#include <fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp>
#include <fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp>
#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>
#include <fiction/types.hpp>

#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace fiction;
using sm::pos;
using sm::world;

namespace
{
using L   = sidb_100_cell_clk_lyt_cube;
using C   = cell<L>;
using dip = defect_influence_params<C>;

/// a position by column and row of H-Si sites
using xy = std::pair<long, long>;
pos  to_pos(const xy& p) { const long z = ((p.second % 2) + 2) % 2; return {static_cast<int>(p.first), static_cast<int>((p.second - z) / 2), static_cast<int>(z)}; }
xy   to_xy(const pos& p) { return {p.x, 2L * p.y + p.z}; }
C    to_cell(const xy& p) { return C{p.first, p.second, 0}; }
std::string show_xy(const xy& p) { return "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; }

struct scene
{
    world              w{};       // without the defect
    std::set<xy>       dots{};
    sm::defect         d{};
    long               ax{}, ay{};
    std::size_t        threads{1};
    [[nodiscard]] sidb_defect defect() const { return sidb_defect{d.charge == 0 ? sidb_defect_type::SILOXANE : sidb_defect_type::SI_VACANCY, d.charge, d.eps, d.lambda}; }
    /// the scanned area
    [[nodiscard]] std::vector<xy> area() const
    {
        long x0 = 1 << 30, x1 = -(1 << 30), y0 = x0, y1 = x1;
        for (const auto& p : dots) { x0 = std::min(x0, p.first), x1 = std::max(x1, p.first), y0 = std::min(y0, p.second), y1 = std::max(y1, p.second); }
        std::vector<xy> r{};
        for (long y = y0 - ay; y <= y1 + ay; ++y)
        {
            for (long x = x0 - ax; x <= x1 + ax; ++x) { r.emplace_back(x, y); }
        }
        return r;
    }
    [[nodiscard]] world with(const xy& p) const
    {
        world v = w;
        v.vm.clear(), v.dp.clear();
        if (d.charge != 0) { v.defects[to_pos(p)] = d; }
        return v;
    }
};
void gen_defect(pbt::ctx& c, scene& s)
{
    const int ch = static_cast<int>(c.pick(std::vector<int>{-1, -1, 1, 1, -2, 0}));
    s.d          = c.flip() ? sm::defect{ch, s.w.eps, s.w.lambda} : sm::defect{ch, sm::round_to(c.real(1.0, 12.0), 0.01), sm::round_to(c.real(0.5, 8.0), 0.01)};
    s.ax         = static_cast<long>(c.below(6));
    s.ay         = static_cast<long>(c.below(6));
    s.threads    = c.pick(std::vector<std::size_t>{1, 1, 2, 3, 8, 0});
}
dip params_of(const scene& s, const dip::influence_definition def)
{
    dip ps{};
    ps.defect                                   = s.defect();
    ps.operational_params.simulation_parameters = sm::sim(s.w);
    ps.additional_scanning_area                 = C{s.ax, s.ay};
    ps.influence_def                            = def;
    ps.number_of_threads                        = s.threads;
    return ps;
}
/// the configurations of minimal energy; false if energies are too close to tell
bool ground(const world& in, const unsigned base, std::set<std::vector<int>>& r)
{
    world w = in;
    w.freeze();
    const auto s    = sm::brute(w, base);
    double     emin = 1e300;
    for (const auto& [n, e] : s.valid) { emin = std::min(emin, e); }
    for (const auto& [n, e] : s.unsure)
    {
        if (e < emin + 3e-6) { return false; }
    }
    for (const auto& [n, e] : s.valid)
    {
        if (e - emin > 0.5e-6 && e - emin < 2e-6) { return false; }
        if (e - emin < 1e-6) { r.insert(n); }
    }
    return true;
}
enum class effect
{
    NO,
    YES,
    UNKNOWN
};
using truth_t = std::map<xy, effect>;

/// does a defect at a position change the ground state (or make positive charges possible)?
effect changes(const scene& s, const xy& p)
{
    if (s.dots.count(p) != 0) { return effect::NO; }
    const auto with = s.with(p);
    bool       sure = true;
    const bool pos_ = gm::positive_possible(with, sure);
    if (!sure) { return effect::UNKNOWN; }
    if (pos_) { return effect::YES; }
    std::set<std::vector<int>> a{}, b{};
    if (!ground(s.w, s.w.base, a) || !ground(with, s.w.base, b)) { return effect::UNKNOWN; }
    return a == b ? effect::NO : effect::YES;
}

std::map<xy, bool> read(const defect_influence_domain<L>& d)
{
    std::map<xy, bool> r{};
    d.for_each([&](const C& k, const auto& v) { REQUIRE_THAT(r.emplace(xy{k.x, k.y}, std::get<0>(v) == defect_influence_status::INFLUENTIAL).second, "a position occurs twice"); });
    REQUIRE_EQ(d.size(), r.size(), "size of the domain");
    for (const auto& [p, i] : r)
    {
        const auto v = d.contains(to_cell(p));
        REQUIRE_THAT(v && (std::get<0>(*v) == defect_influence_status::INFLUENTIAL) == i, "contains agrees with for_each at " << show_xy(p));
    }
    return r;
}
template <typename Truth>
std::size_t compare(const std::map<xy, bool>& got, const std::vector<xy>& allowed, Truth&& truth)
{
    const std::set<xy> in{allowed.begin(), allowed.end()};
    std::size_t        yes = 0;
    for (const auto& [p, i] : got)
    {
        REQUIRE_THAT(in.count(p) != 0, show_xy(p) << " is outside of the scanned area");
        const auto t = truth(p);
        if (t == effect::UNKNOWN) { continue; }
        REQUIRE_EQ(i, t == effect::YES, "influence of the defect at " << show_xy(p));
        yes += i;
    }
    return yes;
}
void check_stats(const defect_influence_stats& st, const std::map<xy, bool>& got)
{
    std::size_t yes = 0;
    for (const auto& [p, i] : got) { yes += i; }
    REQUIRE_EQ(st.num_influencing_defect_positions, yes, "number of influencing positions");
    REQUIRE_EQ(st.num_non_influencing_defect_positions, got.size() - yes, "number of non-influencing positions");
    REQUIRE_THAT(st.num_evaluated_defect_positions >= got.size(), "number of evaluated positions");
}

scene gen_scene(pbt::ctx& c, const std::size_t max_dots)
{
    scene s{};
    sm::gen_params(c, s.w);
    s.w.base = c.below(4) == 0 ? 3 : 2;
    sm::gen_opts o{};
    o.w = 8, o.h = 3, o.allow_negative = c.flip();
    s.w.dots = sm::gen_dots(c, 1 + c.below(s.w.base == 3 ? std::min<std::size_t>(4, max_dots) : max_dots), o);
    for (const auto& p : s.w.dots) { s.dots.insert(to_xy(p)); }
    gen_defect(c, s);
    c.note(sm::describe(s.w) + " defect charge " + std::to_string(s.d.charge) + " eps " + std::to_string(s.d.eps) + " lambda " + std::to_string(s.d.lambda) + " area " + show_xy({s.ax, s.ay}) + " threads " + std::to_string(s.threads));
    return s;
}
}  // namespace

/// which positions of a defect change the ground state
PBT("influence", 1500, 40000, "some positions influence the layout and some do not")
{
    const auto s    = gen_scene(c, 5);
    const auto l    = sm::build<L>(s.w.dots);
    const auto ps   = params_of(s, dip::influence_definition::GROUND_STATE_CHANGE);
    const auto step = 1 + c.below(3);
    const auto all  = s.area();
    defect_influence_stats st{};
    const auto truth = [&](const xy& p) { return changes(s, p); };
    if (c.flip())
    {
        const auto got = read(defect_influence_grid_search(l, ps, step, &st));
        std::size_t expected = 0;
        for (const auto& p : all)
        {
            const auto here = std::abs(p.first) % static_cast<long>(step) == 0 && std::abs(p.second) % static_cast<long>(step) == 0;
            REQUIRE_EQ(got.count(p) != 0, here, "grid position " << show_xy(p));
            expected += here;
        }
        REQUIRE_EQ(got.size(), expected, "number of positions");
        const auto yes = compare(got, all, truth);
        check_stats(st, got);
        REQUIRE_EQ(st.num_evaluated_defect_positions, expected, "evaluated positions");
        c.nontrivial(yes > 0 && yes < got.size());
    }
    else
    {
        const auto n   = c.below(2 * all.size());
        const auto got = read(defect_influence_random_sampling(l, n, ps, &st));
        const std::size_t expected = std::min<std::size_t>(n, all.size());
        REQUIRE_EQ(got.size(), expected, "number of samples");
        const auto yes = compare(got, all, truth);
        check_stats(st, got);
        c.nontrivial(yes > 0 && yes < got.size());
    }
    REQUIRE_EQ(l.num_cells(), s.dots.size(), "the layout is not changed");
}

namespace
{
struct gate_scene
{
    scene    s{};
    gm::gate g{};
    bool     kinks{};
};
effect breaks(const gate_scene& q, const xy& p)
{
    if (q.s.dots.count(p) != 0) { return effect::NO; }
    bool op = true;
    for (std::uint64_t i = 0; i < (1ull << q.g.num_in()); ++i)
    {
        const auto v = gm::judge(q.g, q.s.with(p), i);
        if (!v.sure) { return effect::UNKNOWN; }
        op = op && v.operational(q.kinks, q.s.w.base);
    }
    return op ? effect::NO : effect::YES;
}
/// is the ground state changed for some input pattern?
effect changes_some(const gate_scene& q, const xy& p)
{
    if (q.s.dots.count(p) != 0) { return effect::NO; }
    for (std::uint64_t i = 0; i < (1ull << q.g.num_in()); ++i)
    {
        scene t    = q.s;
        t.w.dots   = q.g.dots(i);
        const auto e = changes(t, p);
        if (e != effect::NO) { return e; }
    }
    return effect::NO;
}
bool sturdy(const gm::gate& g);
enum class wanted
{
    ANY,
    MOVABLE,
    STURDY
};
bool gen_gate_once(pbt::ctx& c, gate_scene& q, const std::size_t size, const wanted want)
{
    q          = gate_scene{};
    q.s.w.base = c.below(6) == 0 ? 3 : 2;
    gm::gate_opts o{};
    o.max_permanent   = q.s.w.base == 3 ? 4 : size;
    o.only_south_east = c.flip();
    q.g               = gm::gen_gate(c, o);
    if ((want == wanted::STURDY && !sturdy(q.g)) || (want == wanted::MOVABLE && q.g.canvas.empty() && !sturdy(q.g))) { return false; }
    q.kinks           = o.only_south_east && want != wanted::STURDY && c.flip();
    sm::gen_params(c, q.s.w);
    gm::gen_spec(c, q.g, q.s.w);
    for (const auto* ws : {&q.g.ins, &q.g.outs, &q.g.boths})
    {
        for (const auto& w : *ws)
        {
            for (const auto& p : gm::dots_of(w)) { q.s.dots.insert(to_xy(p)); }
        }
    }
    for (const auto& p : q.g.canvas) { q.s.dots.insert(to_xy(p)); }
    for (const auto& p : q.g.extra) { q.s.dots.insert(to_xy(p)); }
    for (std::uint64_t i = 0; i < (1ull << q.g.num_in()); ++i)
    {
        const auto v = gm::judge(q.g, q.s.w, i);
        if (!v.sure || !v.operational(q.kinks, q.s.w.base)) { return false; }
    }
    gen_defect(c, q.s);
    return true;
}
/// are the wires of the gate still recognisable when each SiDB moves to a neighbouring column? (is_operational requires that)
bool sturdy(const gm::gate& g)
{
    if ((g.dir != gm::flow::S && g.dir != gm::flow::N) || !g.extra.empty()) { return false; }
    for (const auto* ws : {&g.ins, &g.outs, &g.boths})
    {
        for (const auto& w : *ws)
        {
            for (const auto& p : gm::dots_of(w))
            {
                if (p.x != w.pairs[0][0].x) { return false; }
            }
        }
    }
    return true;
}
gate_scene gen_gate_scene(pbt::ctx& c, const std::size_t size, const wanted want = wanted::ANY)
{
    for (int k = 0; k < 60; ++k)
    {
        gate_scene q{};
        try
        {
            if (!gen_gate_once(c, q, size, want)) { continue; }
        }
        catch (const pbt::discard&)
        {
            continue;
        }
        c.note(gm::describe(q.g) + " mu " + std::to_string(q.s.w.mu) + " eps " + std::to_string(q.s.w.eps) + " lambda " + std::to_string(q.s.w.lambda) + " base " + std::to_string(q.s.w.base) + " defect charge " + std::to_string(q.s.d.charge) + " eps " + std::to_string(q.s.d.eps) + " lambda " + std::to_string(q.s.d.lambda) + " area " + show_xy({q.s.ax, q.s.ay}) + (q.kinks ? " rejecting kinks" : ""));
        return q;
    }
    throw pbt::discard{};
}
void gate_params(pbt::ctx& c, const gate_scene& q, is_operational_params& p)
{
    p.simulation_parameters     = sm::sim(q.s.w);
    p.input_bdl_iterator_params = gm::iterator_params(q.g);
    p.sim_engine                = c.flip() ? sidb_simulation_engine::QUICKEXACT : sidb_simulation_engine::EXGS;
    p.op_condition              = q.kinks ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
}
}  // namespace

/// which positions of a defect break a gate, or change the ground state for some input
PBT("influence-gates", 250, 8000, "some positions influence the gate and some do not")
{
    const auto q   = gen_gate_scene(c, 6);
    const auto l   = gm::build<L>(q.g);
    const bool op  = c.below(3) != 0;
    auto       ps  = params_of(q.s, op ? dip::influence_definition::OPERATIONALITY_CHANGE : dip::influence_definition::GROUND_STATE_CHANGE);
    gate_params(c, q, ps.operational_params);
    const auto all = q.s.area();
    defect_influence_stats st{};
    const auto truth = [&](const xy& p) { return op ? breaks(q, p) : changes_some(q, p); };
    const auto mode  = c.below(2);
    const auto step  = 2 + c.below(3);
    const auto got   = read(mode == 0 ? defect_influence_grid_search(l, q.g.spec, ps, step, &st) : defect_influence_random_sampling(l, q.g.spec, 40, ps, &st));
    std::size_t expected = 0;
    for (const auto& p : all) { expected += std::abs(p.first) % static_cast<long>(step) == 0 && std::abs(p.second) % static_cast<long>(step) == 0; }
    if (mode != 0) { expected = std::min<std::size_t>(40, all.size()); }
    REQUIRE_EQ(got.size(), expected, "number of positions");
    const auto yes = compare(got, all, truth);
    check_stats(st, got);
    c.nontrivial(yes > 0 && yes < got.size());
}

namespace
{
/// runs a function in a process of its own; false if it does not end within the time or crashes
template <typename Fn>
bool isolated(std::string& out, const double secs, Fn&& fn)
{
    int fd[2];
    if (pipe(fd) != 0) { throw pbt::discard{}; }
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        std::string r = fn();
        std::size_t k = 0;
        while (k < r.size())
        {
            const auto n = write(fd[1], r.data() + k, r.size() - k);
            if (n <= 0) { break; }
            k += static_cast<std::size_t>(n);
        }
        close(fd[1]);
        _exit(0);
    }
    close(fd[1]);
    std::thread reader{[&]
    {
        char buf[4096];
        for (ssize_t n; (n = ::read(fd[0], buf, sizeof buf)) > 0;) { out.append(buf, static_cast<std::size_t>(n)); }
    }};
    bool      ok = false;
    const auto t0 = std::chrono::steady_clock::now();
    for (;;)
    {
        int st = 0;
        if (waitpid(pid, &st, WNOHANG) == pid)
        {
            ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            break;
        }
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            out.clear();
            break;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    reader.join();
    close(fd[0]);
    return ok;
}
}  // namespace

/// tracing the border between influencing and other positions ends, and every position it visits is judged correctly
PBT("tracing", 500, 15000, "some positions influence the layout and some do not")
{
    const auto s  = gen_scene(c, 5);
    const auto l  = sm::build<L>(s.w.dots);
    const auto ps = params_of(s, dip::influence_definition::GROUND_STATE_CHANGE);
    const auto n  = c.flip() ? 1 + c.below(8) : 60;  // many samples visit every row
    std::string out{};
    const bool  ok = isolated(out, 10, [&]
    {
        defect_influence_stats st{};
        const auto             d = defect_influence_quicktrace(l, n, ps, &st);
        std::ostringstream     o{};
        o << st.num_influencing_defect_positions << ' ' << st.num_non_influencing_defect_positions << '\n';
        d.for_each([&](const C& k, const auto& v) { o << k.x << ' ' << k.y << ' ' << (std::get<0>(v) == defect_influence_status::INFLUENTIAL) << '\n'; });
        return o.str();
    });
    REQUIRE_THAT(ok, "quicktrace does not end (or crashes)");
    std::map<xy, bool> got{};
    std::istringstream in{out};
    std::size_t        influencing = 0, others = 0;
    in >> influencing >> others;
    for (long x, y, i; in >> x >> y >> i;) { got[{x, y}] = i != 0; }
    REQUIRE_THAT(!got.empty(), "no position evaluated");
    REQUIRE_EQ(influencing + others, got.size(), "number of positions in the statistics");
    const auto count_yes = static_cast<std::size_t>(std::count_if(got.begin(), got.end(), [](const auto& x) { return x.second; }));
    REQUIRE_EQ(influencing, count_yes, "number of influencing positions in the statistics");
    const auto yes = compare(got, s.area(), [&](const xy& p) { return changes(s, p); });
    c.nontrivial(yes > 0 && yes < got.size());
}

/// the clearance is the largest distance (to the nearest SiDB) of a position that influences the layout
PBT("clearance", 6000, 200000, "two influencing positions")
{
    std::vector<pos> dots = sm::gen_dots(c, 1 + c.below(6));
    const auto       l    = sm::build<L>(dots);
    defect_influence_domain<L> d{};
    std::map<xy, bool>         m{};
    const auto                 n = c.below(12);
    for (std::uint64_t k = 0; k < n; ++k) { m[{static_cast<long>(c.below(40)) - 12, static_cast<long>(c.below(30)) - 10}] = c.below(3) != 0; }
    double best = 0;
    for (const auto& [p, i] : m)
    {
        d.add_value(to_cell(p), {i ? defect_influence_status::INFLUENTIAL : defect_influence_status::NON_INFLUENTIAL});
        if (!i) { continue; }
        double near = 1e300;
        for (const auto& q : dots) { near = std::min(near, sm::dist(sm::L100, to_pos(p), q)); }
        best = std::max(best, near);
    }
    const auto r = calculate_defect_clearance(l, d);
    REQUIRE_THAT(sm::close(r.defect_clearance_distance, best), "clearance " << r.defect_clearance_distance << " instead of " << best);
    std::size_t yes = 0;
    for (const auto& [p, i] : m) { yes += i; }
    c.nontrivial(yes > 1);
    if (best == 0) { return; }
    const xy at{r.defect_position.x, r.defect_position.y};
    REQUIRE_THAT(m.count(at) != 0 && m[at], "the defect is at " << show_xy(at) << ", which does not influence the layout");
    double near = 1e300;
    for (const auto& q : dots) { near = std::min(near, sm::dist(sm::L100, to_pos(at), q)); }
    REQUIRE_THAT(sm::close(near, best), "the defect at " << show_xy(at) << " is not the farthest one");
}

namespace
{
template <typename Lyt>
using drp = displacement_robustness_domain_params<cell<Lyt>>;

/// the sites an SiDB may end up at
std::vector<xy> sites(const xy& p, const long dx, const long dy, const bool dimer, const bool clamp)
{
    std::vector<xy> r{};
    const auto      base = to_pos(p);
    for (long y = p.second - dy; y <= p.second + dy; ++y)
    {
        for (long x = p.first - dx; x <= p.first + dx; ++x)
        {
            if (clamp && (x < 0 || y < 0)) { continue; }
            if (!dimer) { r.emplace_back(x, y); }
        }
    }
    if (dimer)
    {
        for (long x = p.first - dx; x <= p.first + dx; ++x)
        {
            if (clamp && x < 0) { continue; }
            for (int z = 0; z < 2; ++z)
            {
                if (dy > 0 || z == base.z) { r.push_back(to_xy({static_cast<int>(x), base.y, z})); }
            }
        }
    }
    return r;
}

template <typename Lyt>
std::set<xy> sites_of(const Lyt& l)
{
    std::set<xy> r{};
    l.foreach_cell([&](const auto& x) { r.insert(to_xy(sm::position<Lyt>(x))); });
    return r;
}
/// position -> kind
template <typename Lyt>
std::map<xy, char> picture(const Lyt& l)
{
    std::map<xy, char> r{};
    l.foreach_cell([&](const auto& x) { r[to_xy(sm::position<Lyt>(x))] = static_cast<char>(l.get_cell_type(x)); });
    return r;
}
using picture_t = std::map<xy, char>;

/// all layouts that result from moving the given dots
std::multiset<picture_t> all_displacements(const picture_t& p, const std::set<xy>& fixed, const long dx, const long dy, const bool dimer, const bool clamp, std::size_t& combos)
{
    std::multiset<picture_t>                        r{};
    std::vector<std::pair<std::vector<xy>, char>>   opt{};
    combos = 1;
    for (const auto& [k, t] : p)
    {
        opt.emplace_back(fixed.count(k) != 0 ? std::vector<xy>{k} : sites(k, dx, dy, dimer, clamp), t);
        combos *= opt.back().first.size();
        if (combos > 3000) { throw pbt::discard{}; }
    }
    for (std::size_t i = 0; i < combos; ++i)
    {
        picture_t q{};
        auto      rest = i;
        for (const auto& [o, t] : opt)
        {
            q[o[rest % o.size()]] = t;
            rest /= o.size();
        }
        if (q.size() == p.size()) { r.insert(q); }
    }
    return r;
}

template <typename Lyt>
void displacement(pbt::ctx& c)
{
    const auto q = gen_gate_scene(c, 6, wanted::MOVABLE);
    auto       l = gm::build<Lyt>(q.g);
    std::map<xy, int> defects{};
    if constexpr (is_sidb_defect_surface_v<Lyt>)
    {
        // the gate works with the defect, too
        for (int k = 0; k < 4; ++k)
        {
            const xy p{static_cast<long>(c.below(30)), static_cast<long>(c.below(30))};
            if (breaks(q, p) != effect::NO || q.s.dots.count(p) != 0) { continue; }
            l.assign_sidb_defect(sm::cell<Lyt>(to_pos(p)), q.s.defect());
            defects[p] = q.s.d.charge;
            break;
        }
    }
    drp<Lyt>   ps{};
    gate_params(c, q, ps.operational_params);
    ps.number_of_threads = q.s.threads;
    const long dx = static_cast<long>(c.below(3)), dy = static_cast<long>(c.below(3));
    const bool dimer = c.flip(), random = c.below(3) == 0;
    ps.displacement_variations = {dx, dy};
    ps.dimer_policy            = dimer ? drp<Lyt>::dimer_displacement_policy::STAY_ON_ORIGINAL_DIMER : drp<Lyt>::dimer_displacement_policy::ALLOW_OTHER_DIMER;
    ps.analysis_mode           = random ? drp<Lyt>::displacement_analysis_mode::RANDOM : drp<Lyt>::displacement_analysis_mode::EXHAUSTIVE;
    if (random) { ps.percentage_of_analyzed_displaced_layouts = 0.05 * static_cast<double>(c.below(21)); }
    const auto   pic = picture(l);
    std::set<xy> fixed{};
    // only few SiDBs move, as the number of layouts grows exponentially
    const auto most = c.below(8) == 0 ? 0 : 1 + c.below(dx * dy > 1 ? 1 : 3);
    const bool any  = dx <= 1 && dy == 0 && sturdy(q.g);
    std::vector<xy> order{};
    for (const auto& [k, t] : pic) { order.push_back(k); }
    c.shuffle(order);
    std::size_t moving = 0;
    for (const auto& x : order)
    {
        const bool canvas = std::find(q.g.canvas.begin(), q.g.canvas.end(), to_pos(x)) != q.g.canvas.end();
        if (moving < most && (any || canvas)) { ++moving; continue; }
        fixed.insert(x);
        ps.fixed_sidbs.insert(sm::cell<Lyt>(to_pos(x)));
    }
    std::size_t combos = 0;
    const auto  expected = all_displacements(pic, fixed, dx, dy, dimer, !sm::is_signed_coord<Lyt>(), combos);
    if (combos > 250) { throw pbt::discard{}; }
    c.note("displacement " + show_xy({dx, dy}) + (dimer ? " same dimer" : "") + (random ? " random " + std::to_string(ps.percentage_of_analyzed_displaced_layouts) : "") + " moving " + std::to_string(moving));
    displacement_robustness_domain_stats st{};
    const auto  dom = determine_displacement_robustness_domain(l, q.g.spec, ps, &st);
    std::size_t op  = 0;
    std::multiset<picture_t> got{};
    for (const auto& [k, s] : dom.operational_values)
    {
        const auto p = picture(k);
        got.insert(p);
        REQUIRE_THAT(got.count(p) <= expected.count(p), "an unexpected displaced layout");
        const auto again = is_operational(k, q.g.spec, ps.operational_params).first;
        REQUIRE_EQ(s == operational_status::OPERATIONAL, again == operational_status::OPERATIONAL, "status of a displaced layout");
        op += s == operational_status::OPERATIONAL;
        if constexpr (is_sidb_defect_surface_v<Lyt>)
        {
            std::map<xy, int> d{};
            k.foreach_sidb_defect([&](const auto& x) { d[to_xy(sm::position<Lyt>(x.first))] = x.second.charge; });
            REQUIRE_THAT(d == defects, "the defects of the surface are kept");
        }
    }
    if (!random) { REQUIRE_EQ(got.size(), expected.size(), "number of displaced layouts"); }
    else
    {
        const auto limit = std::max<std::size_t>(1, static_cast<std::size_t>(static_cast<double>(combos) * ps.percentage_of_analyzed_displaced_layouts));
        REQUIRE_THAT(got.size() <= limit, got.size() << " displaced layouts instead of at most " << limit);
    }
    REQUIRE_EQ(st.num_operational_sidb_displacements, op, "number of operational layouts");
    REQUIRE_EQ(st.num_non_operational_sidb_displacements, got.size() - op, "number of other layouts");
    REQUIRE_THAT(picture(l) == pic, "the layout is not changed");
    c.nontrivial(op > 0 && op < got.size());
}
}  // namespace

/// all layouts with displaced SiDBs, and whether they work
PBT("displacement", 400, 12000, "some displaced layouts are operational and some are not")
{
    switch (c.below(4))
    {
        case 3: displacement<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(c); break;
        case 0: displacement<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: displacement<sidb_100_cell_clk_lyt_cube>(c); break;
        default: displacement<sidb_100_cell_clk_lyt>(c);
    }
}

/// the probability of fabricating a gate that works
PBT("fabrication", 120, 3000, "the probability is between 0 and 1")
{
    using Lyt    = sidb_100_cell_clk_lyt_siqad;
    const auto q = gen_gate_scene(c, 5, wanted::STURDY);
    const auto l = gm::build<Lyt>(q.g);
    drp<Lyt>   ps{};
    gate_params(c, q, ps.operational_params);
    ps.operational_params.op_condition = is_operational_params::operational_condition::TOLERATE_KINKS;
    ps.number_of_threads = q.s.threads;
    const auto pic = picture(l);
    const auto n   = pic.size();
    const auto k   = c.below(3);
    const double rate = k == 0 ? (c.flip() ? 0.0 : -0.3) : (static_cast<double>(k) + 0.3) / static_cast<double>(n);
    ps.displacement_variations = {1, 0};
    c.note("displaced " + std::to_string(k));
    const auto p = determine_probability_of_fabricating_operational_gate(l, q.g.spec, ps, rate);
    if (k == 0)
    {
        REQUIRE_EQ(p, 1.0, "probability without displacement");
        return;
    }
    std::vector<xy> dots{};
    for (const auto& [x, t] : pic) { dots.push_back(x); }
    std::size_t op = 0, all = 0;
    std::map<picture_t, bool> memo{};
    const auto add = [&](const std::set<xy>& fixed)
    {
        std::size_t combos = 0;
        for (const auto& m : all_displacements(pic, fixed, 1, static_cast<long>(ps.displacement_variations.second), true, false, combos))
        {
            auto it = memo.find(m);
            if (it == memo.end())
            {
                Lyt t{};
                for (const auto& [x, y] : m) { t.assign_cell_type(sm::cell<Lyt>(to_pos(x)), static_cast<typename Lyt::cell_type>(y)); }
                it = memo.emplace(m, is_operational(t, q.g.spec, ps.operational_params).first == operational_status::OPERATIONAL).first;
            }
            op += it->second;
            ++all;
        }
    };
    for (std::size_t i = 0; i < n; ++i)
    {
        std::set<xy> f{dots.begin(), dots.end()};
        f.erase(dots[i]);
        if (k == 1) { add(f); continue; }
        for (std::size_t j = i + 1; j < n; ++j)
        {
            auto g = f;
            g.erase(dots[j]);
            add(g);
        }
    }
    const auto expected = static_cast<double>(op) / static_cast<double>(all);
    REQUIRE_THAT(sm::close(p, expected), "probability " << p << " instead of " << expected);
    c.nontrivial(p > 0 && p < 1);
}

namespace
{
template <typename Lyt>
void random_layouts(pbt::ctx& c)
{
    using P = generate_random_sidb_layout_params<coordinate<Lyt>>;
    using T = typename Lyt::cell_type;
    P    ps{};
    world w{};
    sm::gen_params(c, w);
    w.base = 3;
    ps.simulation_parameters = sm::sim(w);
    const pos a{static_cast<int>(c.below(6)), static_cast<int>(c.below(4)), static_cast<int>(c.below(2))};
    pos       b{a.x + static_cast<int>(c.below(12)), a.y + static_cast<int>(c.below(5)), static_cast<int>(c.below(2))};
    if (b.y == a.y && b.z < a.z) { b.z = a.z; }
    const bool swapped = c.below(4) == 0 && a.x == b.x;
    ps.coordinate_pair = swapped ? std::make_pair(sm::cell<Lyt>(b), sm::cell<Lyt>(a)) : std::make_pair(sm::cell<Lyt>(a), sm::cell<Lyt>(b));
    const auto n       = c.below(7);
    ps.number_of_sidbs = n;
    const auto mode    = c.below(3);
    ps.positive_sidbs  = mode == 0 ? P::positive_charges::ALLOWED : mode == 1 ? P::positive_charges::FORBIDDEN : P::positive_charges::MAY_OCCUR;
    ps.maximal_attempts = 1 + c.below(500);
    Lyt                skeleton{};
    std::map<xy, char> sk{};
    const bool         with = c.flip();
    if (with)
    {
        const auto m = c.below(5);
        for (std::uint64_t k = 0; k < m; ++k)
        {
            const pos p{static_cast<int>(c.below(18)), static_cast<int>(c.below(9)), static_cast<int>(c.below(2))};
            const auto t = c.pick(std::vector<T>{T::NORMAL, T::INPUT, T::OUTPUT, T::LOGIC});
            skeleton.assign_cell_type(sm::cell<Lyt>(p), t);
        }
        sk = picture(skeleton);
    }
    std::set<xy> defects{};
    if constexpr (is_sidb_defect_surface_v<Lyt>)
    {
        if (with)
        {
            const auto m = c.below(4);
            for (std::uint64_t k = 0; k < m; ++k)
            {
                const pos p{static_cast<int>(c.below(18)), static_cast<int>(c.below(9)), static_cast<int>(c.below(2))};
                if (sk.count(to_xy(p)) != 0) { continue; }
                skeleton.assign_sidb_defect(sm::cell<Lyt>(p), c.flip() ? sidb_defect{sidb_defect_type::SI_VACANCY, -1, w.eps, w.lambda} : sidb_defect{sidb_defect_type::SILOXANE});
                defects.insert(to_xy(p));
            }
        }
    }
    c.note("area " + sm::str(a) + "-" + sm::str(b) + " SiDBs " + std::to_string(n) + " skeleton " + std::to_string(sk.size()) + " defects " + std::to_string(defects.size()) + " mode " + std::to_string(mode) + " attempts " + std::to_string(ps.maximal_attempts));
    const auto check = [&](const Lyt& l)
    {
        const auto p = picture(l);
        REQUIRE_EQ(p.size(), sk.size() + n, "number of SiDBs");
        for (const auto& [k, t] : sk)
        {
            const auto it = p.find(k);
            REQUIRE_THAT(it != p.end(), "the SiDB of the skeleton at " << show_xy(k) << " is gone");
            REQUIRE_EQ(static_cast<int>(it->second), static_cast<int>(t), "type of the SiDB of the skeleton at " << show_xy(k));
        }
        for (const auto& [k, t] : p)
        {
            if (sk.count(k) != 0) { continue; }
            const auto q = to_pos(k);
            REQUIRE_THAT(q.x >= a.x && q.x <= b.x && k.second >= to_xy(a).second && k.second <= to_xy(b).second, "an SiDB at " << show_xy(k) << " outside of the area");
            REQUIRE_THAT(defects.count(k) == 0, "an SiDB at the position of a defect");
            if constexpr (is_sidb_defect_surface_v<Lyt>)
            {
                REQUIRE_THAT(skeleton.all_affected_sidbs(std::make_pair(0, 0)).count(sm::cell<Lyt>(q)) == 0, "an SiDB next to a defect");
            }
        }
        if constexpr (is_sidb_defect_surface_v<Lyt>) { REQUIRE_EQ(l.num_defects(), defects.size(), "defects"); }
        const bool positive = can_positive_charges_occur(l, ps.simulation_parameters);
        if (mode == 1) { REQUIRE_THAT(!positive, "positive charges may occur although they are forbidden"); }
        if (mode == 2) { REQUIRE_THAT(positive, "positive charges cannot occur although they are requested"); }
    };
    std::string out{};
    const auto  one = with ? generate_random_sidb_layout<Lyt>(ps, skeleton) : generate_random_sidb_layout<Lyt>(ps);
    if (one) { check(*one); }
    ps.number_of_unique_generated_layouts    = 1 + c.below(6);
    ps.maximal_attempts_for_multiple_layouts = c.below(12);
    const auto many = with ? generate_multiple_random_sidb_layouts<Lyt>(ps, skeleton) : generate_multiple_random_sidb_layouts<Lyt>(ps);
    if (many)
    {
        REQUIRE_THAT(!many->empty() && many->size() <= ps.number_of_unique_generated_layouts, many->size() << " layouts");
        std::set<std::map<xy, char>> seen{};
        for (const auto& l : *many)
        {
            check(l);
            REQUIRE_THAT(seen.insert(picture(l)).second, "two identical layouts");
        }
    }
    if (with) { REQUIRE_THAT(picture(skeleton) == sk, "the skeleton is not changed"); }
    c.nontrivial(one.has_value() && n > 1);
}
}  // namespace

/// random layouts respect the area, the skeleton, the defects, and the wish about positive charges
PBT("random-layouts", 2500, 80000, "a layout with two new SiDBs or more")
{
    switch (c.below(4))
    {
        case 0: random_layouts<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: random_layouts<sidb_100_cell_clk_lyt_cube>(c); break;
        case 2: random_layouts<sidb_100_cell_clk_lyt>(c); break;
        default: random_layouts<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(c);
    }
}

/// time to solution and accuracy of given results
PBT("time-to-solution", 3000, 100000, "the accuracy is between 0 and 1")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    world w{};
    w.dots = sm::gen_dots(c, 2 + c.below(3));
    const auto l = sm::build<Lyt>(w.dots);
    const auto ps = sm::sim(w);
    const auto ex = exhaustive_ground_state_simulation(l, ps);
    if (ex.charge_distributions.empty()) { throw pbt::discard{}; }
    auto exact = ex;
    exact.simulation_runtime = std::chrono::duration<double>(0.25 * static_cast<double>(c.below(9)));
    const auto gs = ex.groundstates();
    std::vector<sidb_simulation_result<Lyt>> hs{};
    const auto  reps = 1 + c.below(8);
    std::size_t hits = 0;
    double      total = 0;
    for (std::uint64_t k = 0; k < reps; ++k)
    {
        sidb_simulation_result<Lyt> h{};
        const auto secs = 0.125 * static_cast<double>(1 + c.below(16));
        total += secs;
        h.simulation_runtime = std::chrono::duration<double>(secs);
        if (c.flip())
        {
            h.charge_distributions = gs;
            ++hits;
            // duplicates and excited states do not matter
            if (c.flip()) { h.charge_distributions.push_back(gs.front()); }
            if (c.flip()) { h.charge_distributions.push_back(c.pick(ex.charge_distributions)); }
        }
        hs.push_back(h);
    }
    const auto conf = c.pick(std::vector<double>{0.5, 0.9, 0.99, 0.997});
    time_to_solution_stats st{};
    st.algorithm = "engine";
    time_to_solution_for_given_simulation_results(exact, hs, conf, &st);
    const auto mean = total / static_cast<double>(reps);
    const auto acc  = static_cast<double>(hits) / static_cast<double>(reps);
    REQUIRE_EQ(st.algorithm, std::string{"engine"}, "engine");
    REQUIRE_THAT(sm::close(st.acc, 100 * acc), "accuracy " << st.acc << " with " << hits << " of " << reps);
    REQUIRE_THAT(sm::close(st.mean_single_runtime, mean), "mean runtime");
    REQUIRE_THAT(sm::close(st.single_runtime_exact, std::chrono::duration<double>(exact.simulation_runtime).count()), "runtime of the exact engine");
    if (hits == 0) { REQUIRE_THAT(std::isinf(st.time_to_solution) && st.time_to_solution > 0, "infinite time to solution"); }
    else if (hits == reps) { REQUIRE_THAT(sm::close(st.time_to_solution, mean), "time to solution of an engine that always succeeds"); }
    else { REQUIRE_THAT(sm::close(st.time_to_solution, mean * std::log(1 - conf) / std::log(1 - acc)), "time to solution " << st.time_to_solution); }
    c.nontrivial(hits > 0 && hits < reps);
}
