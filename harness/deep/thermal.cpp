// P34: thermal robustness, population stability and time to solution
#include "gates_common.hpp"

#include <fiction/algorithms/simulation/sidb/band_bending_resilience.hpp>
#include <fiction/algorithms/simulation/sidb/calculate_energy_and_state_type.hpp>
#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp>
#include <fiction/algorithms/simulation/sidb/physical_population_stability.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>
#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>

using namespace fiction;
using gm::gate;
using sm::pos;
using sm::world;

static constexpr double KB = 1.380649e-23;

static double factor(const double e, const double e0, const double t) { return std::exp(-((e - e0) * sm::QE) / (KB * t)); }

/// energies with the weight of erroneous and of all states
struct level
{
    double e;
    bool   bad;
};
static double p_bad(const std::vector<level>& ls, const double t)
{
    double e0 = 1e300, z = 0, b = 0;
    for (const auto& l : ls) { e0 = std::min(e0, l.e); }
    for (const auto& l : ls)
    {
        const double f = factor(l.e, e0, t);
        z += f;
        if (l.bad) { b += f; }
    }
    return z == 0 ? 0 : b / z;
}

/// energies must be equal or clearly different
static bool distinct(const std::vector<level>& ls)
{
    for (const auto& a : ls)
    {
        for (const auto& b : ls)
        {
            const double d = std::abs(a.e - b.e);
            if (d > 1e-10 && d < 5e-6) { return false; }
        }
    }
    return true;
}

/// the temperatures of the 0.01 K grid that may be the first with P > bound: energies are only known to 6 decimal places
struct span
{
    double lo, hi;
    [[nodiscard]] bool has(const double t) const { return t > lo - 0.005 && t < hi + 0.005; }
};
static span first_exceeding(const std::vector<level>& ls, const double bound, const double max)
{
    double lo = -1;
    for (std::uint64_t i = 1; i <= static_cast<std::uint64_t>(std::round(max * 100)); ++i)
    {
        const double t = static_cast<double>(i) / 100.0, p = p_bad(ls, t), tol = std::min(0.5, 2e-6 / (8.617e-5 * t)) * p + 1e-9;
        if (lo < 0 && p + tol > bound) { lo = t; }
        if (p - tol > bound) { return {lo, t}; }
    }
    return {lo < 0 ? max : lo, max};
}

static double gen_max(pbt::ctx& c) { return c.below(8) == 0 ? 400.0 : c.pick(std::vector<double>{1, 20, 64.5, 133, 250}); }
static double gen_conf(pbt::ctx& c) { return c.pick(std::vector<double>{0.99, 0.9, 0.999, 0.6, 0.75, 0.9999, 0.99999}); }

// ------------------------------------------------------------------------------------------------- occupation probabilities
PBT("occupation-probability", 40000, 800000, "there are states above the ground state and erroneous ones")
{
    const auto                 n = c.below(8);
    std::vector<level>         ls, ex;
    sidb_energy_and_state_type st;
    energy_distribution        dist;
    std::map<double, std::uint64_t> deg;
    for (std::size_t i = 0; i < n; ++i)
    {
        const double e = sm::round_to(c.real(-0.5, 1.5), c.flip() ? 0.1 : 0.001);
        const bool   b = c.flip();
        ls.push_back({e, b});
        st.emplace_back(e, b ? state_type::REJECTED : state_type::ACCEPTED);
        ++deg[e];
    }
    for (const auto& [e, d] : deg) { dist.add_energy_state(energy_state(e, d)); }
    double e0 = 1e300;
    for (const auto& l : ls) { e0 = std::min(e0, l.e); }
    for (const auto& l : ls) { ex.push_back({l.e, l.e - e0 > 1e-6}); }
    const double t = c.pick(std::vector<double>{0.01, 1, 4, 77, 300, 1000, 0.5 + c.real(0, 500)});
    const double f = calculate_boltzmann_factor(n ? ls[0].e : 1.0, n ? e0 : 0.5, t), g = factor(n ? ls[0].e : 1.0, n ? e0 : 0.5, t);
    REQUIRE_THAT(g < 1e-250 ? f < 1e-240 : std::abs(std::log(f) - std::log(g)) <= 1e-9 + 1e-5 * std::abs(std::log(g)), "the Boltzmann factor is " << f << ", expected " << g);
    const double want = n ? p_bad(ls, t) : 0.0, got = occupation_probability_gate_based(st, t);
    REQUIRE_THAT(std::abs(got - want) < 1e-4, "occupation probability of erroneous states at " << t << " K is " << got << ", expected " << want);
    const double want2 = n ? p_bad(ex, t) : 0.0, got2 = occupation_probability_non_gate_based(dist, t);
    REQUIRE_THAT(std::abs(got2 - want2) < 1e-4, "occupation probability of excited states at " << t << " K is " << got2 << ", expected " << want2);
    c.nontrivial(deg.size() > 1 && want > 0 && want < 1);
}

// ------------------------------------------------------------------------------------- critical temperature without a function
template <typename Lyt>
static void ungated(pbt::ctx& c)
{
    world w;
    w.lat  = sm::lattice_of<Lyt>();
    w.base = c.below(3) == 0 ? 3 : 2;
    w.dots = sm::gen_dots(c, c.below(6) == 0 ? 1 + c.below(3) : 4 + c.below(w.base == 3 ? 2 : 5));
    sm::gen_params(c, w);
    w.freeze();
    c.note(sm::describe(w));
    const auto s = sm::brute(w, w.base);
    if (!s.unsure.empty()) { throw pbt::discard{}; }
    std::vector<level> ls;
    double             e0 = 1e300, e1 = 1e300;
    for (const auto& [n, e] : s.valid) { e0 = std::min(e0, e); }
    for (const auto& [n, e] : s.valid)
    {
        ls.push_back({e, e - e0 > 1e-6});
        if (e - e0 > 1e-6) { e1 = std::min(e1, e); }
    }
    if (!distinct(ls)) { throw pbt::discard{}; }
    critical_temperature_params ps{};
    ps.operational_params.simulation_parameters = sm::sim(w);
    ps.operational_params.sim_engine            = sidb_simulation_engine::QUICKEXACT;
    ps.max_temperature                          = gen_max(c);
    ps.confidence_level                         = gen_conf(c);
    const auto want = first_exceeding(ls, 1 - ps.confidence_level, ps.max_temperature);
    critical_temperature_stats st{};
    const auto                 l   = sm::build<Lyt>(w.dots);
    const double               got = critical_temperature_non_gate_based(l, ps, &st);
    REQUIRE_THAT(want.has(got), "critical temperature is " << got << " K, expected " << want.lo << " K");
    REQUIRE_EQ(st.num_valid_lyt, ls.size(), "number of valid charge distributions");
    REQUIRE_EQ(st.algorithm_name, std::string{"QuickExact"}, "name of the algorithm");
    if (e1 < 1e299) { REQUIRE_THAT(sm::close(st.energy_between_ground_state_and_first_erroneous, (e1 - e0) * 1000, 1e-5), "energy between ground and first excited state is " << st.energy_between_ground_state_and_first_erroneous << " meV, expected " << (e1 - e0) * 1000); }
    else { REQUIRE_THAT(std::isinf(st.energy_between_ground_state_and_first_erroneous), "energy of an excited state that does not exist"); }
    c.nontrivial(want.hi < ps.max_temperature);
}

PBT("critical-temperature-of-layouts", 5000, 100000, "it is below the maximum temperature")
{
    if (c.flip()) { ungated<sidb_100_cell_clk_lyt_siqad>(c); }
    else { ungated<sidb_100_cell_clk_lyt>(c); }
}

// ----------------------------------------------------------------------------------------------- critical temperature of gates
/// what calculate_energy_and_state_type_with_kinks_rejected is known to report (KF-3): every state of an energy counts as
/// accepted, the first erroneous one is counted a second time, as rejected, and ends the list for that energy
static std::vector<level> known_states(const std::vector<std::pair<double, bool>>& in_order)
{
    std::set<double> energies;
    for (const auto& [e, bad] : in_order)
    {
        bool fresh = true;
        for (const auto x : energies) { fresh &= std::abs(x - e) >= 1e-6; }
        if (fresh) { energies.insert(e); }
    }
    std::vector<level> r;
    for (const auto x : energies)
    {
        for (const auto& [e, bad] : in_order)
        {
            if (std::abs(x - e) >= 1e-6) { continue; }
            r.push_back({x, false});
            if (bad)
            {
                r.push_back({x, true});
                break;
            }
        }
    }
    return r;
}

struct outcome
{
    span   t;              // critical temperature
    double gap = std::numeric_limits<double>::infinity();
};

static void add(outcome& o, const std::vector<level>& ls, const double bound, const double max)
{
    double e0 = 1e300, first = 1e300;
    for (const auto& l : ls) { e0 = std::min(e0, l.e); }
    bool transparent = false;
    for (const auto& l : ls) { transparent |= !l.bad && l.e - e0 < 1e-6; }
    for (const auto& l : ls)
    {
        if (l.bad && l.e - e0 > 1e-6) { first = std::min(first, l.e); }
    }
    if (!transparent)
    {
        o.t = {0, 0};
        return;
    }
    if (first < 1e299) { o.gap = std::min(o.gap, (first - e0) * 1000); }
    if (o.t.hi <= 0) { return; }
    const auto t = first_exceeding(ls, bound, max);
    o.t          = {std::min(o.t.lo, t.lo), std::min(o.t.hi, t.hi)};
}

template <typename Lyt>
static void gated(pbt::ctx& c)
{
    const bool reject = c.flip();
    world      w;
    w.base = c.below(6) == 0 ? 3 : 2;
    gm::gate_opts o;
    o.max_permanent   = w.base == 3 ? 5 : 7;
    o.only_south_east = !reject;  // without wires there is no direction: 1 means that the lower output dot is negative
    auto g            = gm::gen_gate(c, o);
    sm::gen_params(c, w);
    gm::gen_spec(c, g, w);
    critical_temperature_params ps{};
    ps.max_temperature  = gen_max(c);
    ps.confidence_level = gen_conf(c);
    c.note(gm::describe(g) + " mu " + std::to_string(w.mu) + " eps " + std::to_string(w.eps) + " lambda " + std::to_string(w.lambda) + " base " + std::to_string(w.base) + (reject ? " rejecting kinks" : ""));
    auto& op                     = ps.operational_params;
    op.simulation_parameters     = sm::sim(w);
    op.input_bdl_iterator_params = gm::iterator_params(g);
    op.sim_engine                = c.flip() ? sidb_simulation_engine::QUICKEXACT : sidb_simulation_engine::EXGS;
    op.op_condition              = reject ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    const auto l  = gm::build<Lyt>(g);
    const auto wi = detect_bdl_wires(l, op.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::INPUT);
    const auto wo = detect_bdl_wires(l, op.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::OUTPUT);
    const auto po = detect_bdl_pairs(l, sidb_technology::cell_type::OUTPUT, op.input_bdl_iterator_params.bdl_wire_params.bdl_pairs_params);
    outcome    want{{ps.max_temperature, ps.max_temperature}}, known{{ps.max_temperature, ps.max_temperature}};
    const double        bound = 1 - ps.confidence_level;
    std::size_t         last  = 0;
    bool                early = false;
    const auto          ls_   = generate_bdl_input_pattern_layouts(l, op.input_bdl_iterator_params);
    const std::uint64_t m     = 1ull << g.num_in();
    for (std::uint64_t p = 0; p < m && !early; ++p)
    {
        const auto v = gm::judge(g, w, p);
        if (!v.sure || !v.spec.unsure.empty()) { throw pbt::discard{}; }
        if (v.positive || v.none)
        {
            want.t = known.t = {0, 0};
            early            = true;
            break;
        }
        std::vector<level> states;
        const auto         bad_of = [&](const std::vector<int>& n)
        {
            const gm::config s{&v.w, &n};
            if (reject) { return !gm::outputs_match(g, s, p) || gm::has_kinks(g, s, p); }
            bool bad = false;
            for (std::size_t k = 0; k < g.num_out(); ++k) { bad |= (s.at(g.out(k).pairs.back()[1]) != 0) != kitty::get_bit(g.spec[k], p); }
            return bad;
        };
        for (const auto& [n, e] : v.spec.valid) { states.push_back({e, bad_of(n)}); }
        if (!distinct(states)) { throw pbt::discard{}; }
        last = states.size();
        // the classification itself, on the distributions as simulated
        const auto sim = op.sim_engine == sidb_simulation_engine::EXGS ? exhaustive_ground_state_simulation(ls_[p], op.simulation_parameters) : quickexact(ls_[p], quickexact_params<cell<Lyt>>{op.simulation_parameters, quickexact_params<cell<Lyt>>::automatic_base_number_detection::OFF});
        const auto dist = calculate_energy_distribution(sim.charge_distributions);
        std::vector<std::pair<double, bool>> in_order;
        for (const auto& x : sim.charge_distributions)
        {
            std::vector<int> n;
            for (const auto& d : v.w.dots) { n.push_back(sm::sign(x.get_charge_state(sm::cell<Lyt>(d)))); }
            in_order.emplace_back(x.get_electrostatic_potential_energy(), bad_of(n));
        }
        const auto got = reject ? calculate_energy_and_state_type_with_kinks_rejected<Lyt>(dist, sim.charge_distributions, g.spec, p, wi, wo) : calculate_energy_and_state_type_with_kinks_accepted<Lyt>(dist, sim.charge_distributions, po, g.spec, p);
        const auto same = [&](std::vector<level> a)
        {
            if (a.size() != got.size()) { return false; }
            auto b = got;
            std::sort(a.begin(), a.end(), [](const auto& x, const auto& y) { return std::pair{std::round(x.e * 1e7), x.bad} < std::pair{std::round(y.e * 1e7), y.bad}; });
            std::sort(b.begin(), b.end(), [](const auto& x, const auto& y) { return std::pair{std::round(x.first * 1e7), x.second == state_type::REJECTED} < std::pair{std::round(y.first * 1e7), y.second == state_type::REJECTED}; });
            for (std::size_t i = 0; i < a.size(); ++i)
            {
                if (std::abs(a[i].e - b[i].first) > 1e-6 || a[i].bad != (b[i].second == state_type::REJECTED)) { return false; }
            }
            return true;
        };
        const auto ks = reject ? known_states(in_order) : states;
        REQUIRE_THAT(same(states) || same(ks), "states of input pattern " << p << " are classified wrongly");
        for (std::size_t i = 1; i < got.size(); ++i) { REQUIRE_THAT(got[i - 1].first <= got[i].first, "classified states are not sorted by energy"); }
        add(want, states, bound, ps.max_temperature);
        add(known, ks, bound, ps.max_temperature);
    }
    critical_temperature_stats st{};
    const bool                 pre = c.flip();
    const double               t   = pre ? critical_temperature_gate_based(ls_, g.spec, ps, po, wi, wo, &st) : critical_temperature_gate_based(l, g.spec, ps, &st);
    REQUIRE_THAT(want.t.has(t) || known.t.has(t), "critical temperature is " << t << " K, expected " << want.t.lo << " K");
    if (!early) { REQUIRE_EQ(st.num_valid_lyt, last, "number of valid charge distributions"); }
    const auto gap_ok = [&](const double x) { return std::isinf(x) ? std::isinf(st.energy_between_ground_state_and_first_erroneous) : sm::close(st.energy_between_ground_state_and_first_erroneous, x, 1e-5); };
    REQUIRE_THAT(gap_ok(want.gap) || gap_ok(known.gap), "energy between ground state and first erroneous state is " << st.energy_between_ground_state_and_first_erroneous << " meV, expected " << want.gap);
    REQUIRE_EQ(st.algorithm_name, std::string(sidb_simulation_engine_name(op.sim_engine)), "name of the algorithm");
    if (pre)
    {
        auto less = ls_;
        less.pop_back();
        bool threw = false;
        try
        {
            (void)critical_temperature_gate_based(less, g.spec, ps, po, wi, wo);
        }
        catch (const std::invalid_argument&) { threw = true; }
        REQUIRE_THAT(threw, "too few input pattern layouts are accepted");
    }
    if (want.t.hi > 0 && want.t.hi < ps.max_temperature) { c.label("between"); }
    c.nontrivial(want.t.hi > 0);
}

PBT("critical-temperature-of-gates", 4000, 80000, "all input patterns have a correct ground state")
{
    switch (c.below(3))
    {
        case 0: gated<sidb_100_cell_clk_lyt>(c); break;
        case 1: gated<sidb_100_cell_clk_lyt_cube>(c); break;
        default: gated<sidb_100_cell_clk_lyt_siqad>(c);
    }
}

// ------------------------------------------------------------------------------------------------------ population stability
struct stability
{
    std::map<transition_type, double> v;
    double                            closer_positive = 1e300;
    std::map<transition_type, std::vector<pos>> where;
};

static stability stability_of(const world& w, const std::vector<int>& n)
{
    constexpr double inf = std::numeric_limits<double>::infinity();
    stability        s;
    for (const auto t : {transition_type::NEUTRAL_TO_NEGATIVE, transition_type::NEGATIVE_TO_NEUTRAL, transition_type::NEUTRAL_TO_POSITIVE, transition_type::POSITIVE_TO_NEUTRAL}) { s.v[t] = inf; }
    for (std::size_t i = 0; i < n.size(); ++i)
    {
        const double a = std::abs(-w.local(i, n) + w.mu), b = std::abs(-w.local(i, n) + w.mu_plus());
        const auto   take = [&](const transition_type t, const double x)
        {
            s.v[t] = std::min(s.v[t], x);
        };
        if (n[i] < 0) { take(transition_type::NEGATIVE_TO_NEUTRAL, a); }
        else if (n[i] > 0) { take(transition_type::POSITIVE_TO_NEUTRAL, b); }
        else
        {
            if (a < b) { take(transition_type::NEUTRAL_TO_NEGATIVE, a); }
            else { s.closer_positive = std::min(s.closer_positive, b); }
            take(transition_type::NEUTRAL_TO_POSITIVE, b);
        }
    }
    return s;
}

template <typename Info>
static void check_stability(const Info& info, const world& w, const std::vector<int>& n, const physical_population_stability_params& ps)
{
    using Lyt    = sidb_100_cell_clk_lyt_siqad;
    const auto s = stability_of(w, n);
    double     least = 1e300;
    for (const auto& [t, v] : s.v)
    {
        const auto [dot, got] = info.transition_potentials.at(t);
        const bool alternative = t == transition_type::NEUTRAL_TO_POSITIVE && (std::abs(got - s.closer_positive) < 1e-8 || (std::isinf(got) && s.closer_positive > 1e299));
        REQUIRE_THAT(alternative || (std::isinf(v) ? std::isinf(got) : std::abs(got - v) < 1e-8), "transition " << static_cast<int>(t) << " of " << sm::str(n) << " takes " << got << " V, expected " << v);
        if (!std::isinf(got))
        {
            const auto i = static_cast<std::size_t>(std::find(w.dots.begin(), w.dots.end(), sm::position<Lyt>(dot)) - w.dots.begin());
            REQUIRE_THAT(i < w.dots.size(), "the critical SiDB does not exist");
            const double own = std::abs(-w.local(i, n) + (t == transition_type::NEUTRAL_TO_NEGATIVE || t == transition_type::NEGATIVE_TO_NEUTRAL ? w.mu : w.mu_plus()));
            REQUIRE_THAT(std::abs(own - got) < 1e-8, "the critical SiDB of transition " << static_cast<int>(t) << " is another one");
            if (got < least) { least = got; }
            // distance: the first grid point at which the potential has dropped to the given one
            const double step = std::pow(10, -static_cast<double>(ps.precision_for_distance_corresponding_to_potential));
            const double d    = info.distance_corresponding_to_potential.at(t);
            const auto   at   = [&](const double x) { return sm::KE / w.eps / (x * 1e-9) * std::exp(-x / w.lambda) * sm::QE; };
            REQUIRE_THAT(at(d) <= got * (1 + 1e-6) && (d < 1.5 * step || at(d - step) >= got * (1 - 1e-6)), "a potential of " << got << " V corresponds to a distance of " << d << " nm");
        }
    }
    const auto i = static_cast<std::size_t>(std::find(w.dots.begin(), w.dots.end(), sm::position<Lyt>(info.critical_cell)) - w.dots.begin());
    REQUIRE_THAT(i < w.dots.size(), "the critical SiDB does not exist");
    bool hit = false;
    for (const auto& [t, x] : info.transition_potentials) { hit |= std::abs(x.second - least) < 1e-8 && sm::position<Lyt>(x.first) == w.dots[i]; }
    REQUIRE_THAT(hit, "the critical SiDB is not the one closest to a transition");
}

PBT("population-stability", 8000, 160000, "there are at least two physically valid charge distributions")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    world w;
    w.base = c.flip() ? 3 : 2;
    w.dots = sm::gen_dots(c, 1 + c.below(6));
    sm::gen_params(c, w);
    w.freeze();
    c.note(sm::describe(w));
    // QuickExact detects the base number by itself
    bool           sure = true;
    const unsigned base = gm::positive_possible(w, sure) ? 3 : 2;
    const auto     s    = sm::brute(w, base);
    if (!sure || !s.unsure.empty()) { throw pbt::discard{}; }
    physical_population_stability_params ps{};
    ps.simulation_parameters                           = sm::sim(w);
    ps.precision_for_distance_corresponding_to_potential = 1 + c.below(2);
    const auto got = physical_population_stability(sm::build<Lyt>(w.dots), ps);
    REQUIRE_EQ(got.size(), s.valid.size(), "number of charge distributions");
    std::vector<std::pair<double, std::vector<int>>> want;
    for (const auto& [n, e] : s.valid) { want.emplace_back(e, n); }
    std::sort(want.begin(), want.end());
    bool degenerate = false;
    for (std::size_t i = 0; i + 1 < want.size(); ++i) { degenerate |= want[i + 1].first - want[i].first < 1e-6; }
    for (std::size_t i = 0; i < got.size(); ++i)
    {
        REQUIRE_THAT(std::abs(got[i].system_energy - want[i].first) < 1e-7, "charge distribution " << i << " has the energy " << got[i].system_energy << ", expected " << want[i].first);
        if (!degenerate) { check_stability(got[i], w, want[i].second, ps); }
    }
    c.nontrivial(want.size() > 1);
}

/// minimum over the input patterns of the potential that changes a charge of the ground state; < 0 if undecided
static double resilience(const std::vector<world>& ws, const std::optional<transition_type> t, const unsigned)
{
    double r = std::numeric_limits<double>::infinity();
    for (const auto& w : ws)
    {
        bool           sure = true;
        const unsigned base = gm::positive_possible(w, sure) ? 3 : 2;
        const auto     s    = sm::brute(w, base);
        if (!sure || !s.unsure.empty()) { return -1; }
        const std::vector<int>* best = nullptr;
        double                  e    = 1e300;
        for (const auto& [n, x] : s.valid)
        {
            if (std::abs(x - e) < 2e-6) { return -1; }  // degenerate
            if (x < e) { e = x, best = &n; }
        }
        if (!best) { continue; }
        const auto st = stability_of(w, *best);
        if (t) { r = std::min(r, st.v.at(*t)); }
        else
        {
            for (const auto& [k, x] : st.v) { r = std::min(r, x); }
        }
    }
    return r;
}

PBT("band-bending-resilience", 2500, 50000, "the gate has two inputs")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    world w;
    gm::gate_opts o;
    o.max_permanent = 6;
    auto g          = gm::gen_gate(c, o);
    sm::gen_params(c, w);
    g.spec.assign(g.num_out(), kitty::dynamic_truth_table(static_cast<unsigned>(g.num_in())));
    w.base = 2;
    c.note(gm::describe(g) + " mu " + std::to_string(w.mu) + " eps " + std::to_string(w.eps) + " lambda " + std::to_string(w.lambda));
    std::vector<world> ws;
    for (std::uint64_t p = 0; p < (1ull << g.num_in()); ++p) { ws.push_back(gm::world_of(g, w, p)); }
    world all = w;
    all.dots  = g.permanent();
    for (std::size_t i = 0; i < g.num_in(); ++i) { all.dots.insert(all.dots.end(), g.in(i).pairs.front().begin(), g.in(i).pairs.front().end()); }
    all.freeze();
    const auto t = c.pick(std::vector<std::optional<transition_type>>{std::nullopt, transition_type::NEUTRAL_TO_NEGATIVE, transition_type::NEGATIVE_TO_NEUTRAL, transition_type::NEUTRAL_TO_POSITIVE});
    band_bending_resilience_params ps{};
    ps.assess_population_stability_params.simulation_parameters = sm::sim(w);
    ps.assess_population_stability_params.precision_for_distance_corresponding_to_potential = 1;
    ps.bdl_iterator_params = gm::iterator_params(g);
    const double want = resilience(ws, t, w.base), known = resilience({all}, t, w.base);
    if (want < 0 || known < 0) { throw pbt::discard{}; }
    const double got = band_bending_resilience(gm::build<Lyt>(g), g.spec, ps, t);
    const auto   eq  = [&](const double x) { return std::isinf(x) ? std::isinf(got) : std::abs(got - x) < 1e-8; };
    // KF-2: the layout with all input dots is assessed instead of one layout per input pattern
    REQUIRE_THAT(eq(want) || eq(known), "band bending resilience is " << got << " V, expected " << want << " V");
    c.nontrivial(ws.size() > 2);
}

PBT_KNOWN("KF-2", "band-bending-resilience-of-input-patterns", "the reproduction")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    gate g;
    g.ins.push_back(gm::chain(gm::flow::S, 0, 0, 1, 2));
    g.ins[0].in = true;
    g.outs.push_back(gm::chain(gm::flow::S, 5, 14, 1, 1));
    g.outs[0].out = true;
    g.spec.assign(1, kitty::dynamic_truth_table(1u));
    world w;
    w.base = 2;
    const double want = resilience({gm::world_of(g, w, 0), gm::world_of(g, w, 1)}, transition_type::NEGATIVE_TO_NEUTRAL, 2);
    band_bending_resilience_params ps{};
    ps.assess_population_stability_params.simulation_parameters = sm::sim(w);
    const double got = band_bending_resilience(gm::build<Lyt>(g), g.spec, ps, transition_type::NEGATIVE_TO_NEUTRAL);
    c.nontrivial(true);
    REQUIRE_THAT(std::abs(got - want) < 1e-8, "band bending resilience is " << got << " V, expected " << want << " V");
}

PBT_KNOWN("KF-3", "states-with-kinks", "the reproduction")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    // a wire whose ground state is 0 for the absent perturber; with the specification 1 no ground state is correct
    gate g;
    g.boths.push_back(gm::chain(gm::flow::S, 0, 0, 1, 3));
    g.boths[0].in = g.boths[0].out = true;
    world w;
    w.base = 2;
    g.spec.assign(1, kitty::dynamic_truth_table(1u));
    for (std::uint64_t p = 0; p < 2; ++p)
    {
        const auto v = gm::judge(g, w, p);
        const gm::config s{&v.w, &v.ground.front()};
        if (s.at(g.out(0).pairs.back()[1]) == 0) { kitty::set_bit(g.spec[0], p); }
    }
    critical_temperature_params ps{};
    ps.operational_params.simulation_parameters = sm::sim(w);
    ps.operational_params.op_condition          = is_operational_params::operational_condition::REJECT_KINKS;
    c.nontrivial(true);
    REQUIRE_EQ(critical_temperature_gate_based(gm::build<Lyt>(g), g.spec, ps), 0.0, "critical temperature of a gate that always yields the wrong output");
}

// --------------------------------------------------------------------------------------------------------- time to solution
PBT("time-to-solution", 6000, 120000, "some but not all runs find the ground state")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    world w;
    w.base = 2;
    w.dots = sm::gen_dots(c, 2 + c.below(5));
    sm::gen_params(c, w);
    w.freeze();
    c.note(sm::describe(w));
    const auto l = sm::build<Lyt>(w.dots);
    const auto s = sm::brute(w, 2);
    if (!s.unsure.empty() || s.valid.empty()) { throw pbt::discard{}; }
    std::vector<level> ls;
    double             e0 = 1e300;
    for (const auto& [n, e] : s.valid) { ls.push_back({e, false}), e0 = std::min(e0, e); }
    if (!distinct(ls)) { throw pbt::discard{}; }
    std::set<std::vector<int>> ground;
    for (const auto& [n, e] : s.valid)
    {
        if (e - e0 < 1e-6) { ground.insert(n); }
    }
    auto exact                = exhaustive_ground_state_simulation(l, sm::sim(w));
    exact.simulation_runtime  = std::chrono::duration<double>(sm::round_to(c.real(0.001, 2), 0.001));
    std::vector<sidb_simulation_result<Lyt>> runs;
    double                                   total = 0;
    std::size_t                              hits  = 0;
    const auto                               k     = 1 + c.below(6);
    for (std::size_t i = 0; i < k; ++i)
    {
        sidb_simulation_result<Lyt> r{};
        std::set<std::vector<int>>  have;
        // a heuristic finds all ground states, or only a part of them, or just one other state
        const auto mode = c.below(4);
        for (const auto& x : exact.charge_distributions)
        {
            std::vector<int> n;
            for (const auto& d : w.dots) { n.push_back(sm::sign(x.get_charge_state(sm::cell<Lyt>(d)))); }
            const bool take = mode == 0 ? c.flip() : mode == 1 ? ground.count(n) != 0 : mode == 2 ? !ground.count(n) && r.charge_distributions.empty() : false;
            if (take)
            {
                r.charge_distributions.push_back(x);
                have.insert(n);
            }
        }
        double min = 1e300;
        for (const auto& n : have) { min = std::min(min, s.valid.at(n)); }
        std::size_t at_min = 0;
        bool        all    = true;
        for (const auto& n : have) { at_min += s.valid.at(n) - min < 1e-6 ? 1 : 0; }
        for (const auto& n : ground) { all &= have.count(n) != 0; }
        if (at_min > ground.size()) { throw pbt::discard{}; }  // more degenerate than the exact result: outside the documented use
        r.simulation_runtime = std::chrono::duration<double>(sm::round_to(c.real(0.001, 2), 0.001));
        total += r.simulation_runtime.count();
        hits += all ? 1 : 0;
        runs.push_back(r);
    }
    const double           conf = gen_conf(c);
    time_to_solution_stats st{};
    time_to_solution_for_given_simulation_results(exact, runs, conf, &st);
    const double acc = static_cast<double>(hits) / static_cast<double>(k), mean = total / static_cast<double>(k);
    REQUIRE_THAT(sm::close(st.acc, 100 * acc), "accuracy is " << st.acc << " %, expected " << 100 * acc);
    REQUIRE_THAT(sm::close(st.mean_single_runtime, mean), "mean runtime is " << st.mean_single_runtime << " s, expected " << mean);
    REQUIRE_THAT(sm::close(st.single_runtime_exact, exact.simulation_runtime.count()), "runtime of the exact simulation");
    const auto tts = [&](const double a, const double m) { return a >= 1 ? m : a <= 0 ? std::numeric_limits<double>::infinity() : m * std::log(1 - conf) / std::log(1 - a); };
    const auto same = [](const double a, const double b) { return std::isinf(b) ? std::isinf(a) && a > 0 : sm::close(a, b, 1e-6); };
    REQUIRE_THAT(same(st.time_to_solution, tts(acc, mean)), "time to solution is " << st.time_to_solution << " s, expected " << tts(acc, mean));
    // actual runs, some of which cannot find anything
    if (c.below(4) == 0)
    {
        quicksim_params qp{};
        qp.simulation_parameters = sm::sim(w);
        qp.iteration_steps       = c.below(4);
        qp.number_threads        = 1;
        time_to_solution_params tp{};
        tp.repetitions      = 1 + c.below(6);
        tp.confidence_level = conf;
        tp.engine           = c.flip() ? exact_sidb_simulation_engine::QUICKEXACT : exact_sidb_simulation_engine::EXGS;
        time_to_solution_stats ts{};
        time_to_solution(l, qp, tp, &ts);
        const double a = ts.acc / 100, n = a * static_cast<double>(tp.repetitions);
        REQUIRE_THAT(a >= 0 && a <= 1 && std::abs(n - std::round(n)) < 1e-6, "accuracy of " << tp.repetitions << " runs is " << ts.acc << " %");
        if (qp.iteration_steps == 0) { REQUIRE_THAT(ts.acc == 0 && std::isinf(ts.time_to_solution), "runs without any result count as successes: accuracy " << ts.acc << " %, time to solution " << ts.time_to_solution); }
        else { REQUIRE_THAT(same(ts.time_to_solution, tts(a, ts.mean_single_runtime)), "time to solution"); }
        REQUIRE_EQ(ts.algorithm, std::string(sidb_simulation_engine_name(tp.engine)), "name of the exact algorithm");
    }
    c.nontrivial(hits > 0 && hits < k);
}
