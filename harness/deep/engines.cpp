// P32: ground state simulation engines
#include "sidb_common.hpp"

#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/is_ground_state.hpp>
#include <fiction/algorithms/simulation/sidb/minimum_energy.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_result.hpp>

using namespace fiction;
using sm::world;

template <typename Lyt>
std::map<std::vector<int>, double> found(const sidb_simulation_result<Lyt>& r, const world& w, const std::string& engine, const bool unique, const bool index)
{
    std::map<std::vector<int>, double> m;
    for (const auto& s : r.charge_distributions)
    {
        REQUIRE_EQ(s.num_cells(), w.dots.size(), engine << ": a result covers another number of SiDBs");
        std::vector<int> n;
        for (const auto& p : w.dots) { n.push_back(sm::sign(s.get_charge_state(sm::cell<Lyt>(p)))); }
        const bool fresh = m.emplace(n, s.get_electrostatic_potential_energy()).second;
        if (unique) { REQUIRE_THAT(fresh, engine << " reports the charge distribution " << sm::str(n) << " twice"); }
        REQUIRE_THAT(s.is_physically_valid(), engine << " reports " << sm::str(n) << " which claims not to be physically valid");
        REQUIRE_THAT(sm::close(s.get_electrostatic_potential_energy(), w.energy(n), 1e-7), engine << ": energy of " << sm::str(n) << " is " << s.get_electrostatic_potential_energy() << ", expected " << w.energy(n));
        for (std::size_t i = 0; i < n.size(); ++i)
        {
            REQUIRE_THAT(sm::close(*s.get_local_potential_by_index(i), w.local(i, n), 1e-7), engine << ": local potential at SiDB " << i << " in " << sm::str(n) << " is " << *s.get_local_potential_by_index(i) << ", expected " << w.local(i, n));
        }
        if (index) { REQUIRE_EQ(s.get_charge_index_and_base().first, sm::index_of(n, s.get_charge_index_and_base().second), engine << ": charge index of " << sm::str(n)); }
    }
    return m;
}

static void compare(const std::map<std::vector<int>, double>& got, const sm::spectrum& want, const std::string& engine, const bool complete)
{
    for (const auto& [n, e] : got)
    {
        REQUIRE_THAT(want.valid.count(n) || want.unsure.count(n), engine << " reports " << sm::str(n) << " which is not physically valid");
    }
    if (complete)
    {
        for (const auto& [n, e] : want.valid) { REQUIRE_THAT(got.count(n), engine << " misses the physically valid charge distribution " << sm::str(n)); }
    }
}

// the layout with its defects; w.dots in the order of the surface
template <typename Lyt>
Lyt scene(pbt::ctx& c, world& w, const std::size_t max_dots, const bool defects)
{
    w.lat         = sm::lattice_of<Lyt>();
    const auto ds = sm::gen_dots(c, 1 + c.below(max_dots), {14, 5, sm::is_signed_coord<Lyt>()});
    w.dots        = ds;
    sm::gen_params(c, w);
    auto l = sm::build<Lyt>(ds);
    if constexpr (has_get_sidb_defect_v<Lyt>)
    {
        for (std::uint64_t i = defects ? c.below(3) : 0; i-- > 0;)
        {
            const auto [p, d] = sm::gen_defect(c, w);
            w.defects[p]      = d;
            l.assign_sidb_defect(sm::cell<Lyt>(p), sidb_defect{sidb_defect_type::SI_VACANCY, d.charge, d.eps, d.lambda});
        }
    }
    const charge_distribution_surface<Lyt> probe{l};
    sm::adopt_order(w, probe);
    w.freeze();
    return l;
}

template <typename Lyt>
void exgs(pbt::ctx& c)
{
    world w;
    w.base       = c.flip() ? 3 : 2;
    const auto l = scene<Lyt>(c, w, w.base == 3 ? 6 : 8, true);
    c.note(sm::describe(w));
    const auto want = sm::brute(w, w.base);
    const auto r    = exhaustive_ground_state_simulation(l, sm::sim(w));
    REQUIRE_EQ(r.algorithm_name, "ExGS", "name of the algorithm");
    compare(found(r, w, "ExGS", true, true), want, "ExGS", true);
    REQUIRE_EQ(l.num_cells(), w.dots.size(), "the simulated layout changed");
    c.nontrivial(want.valid.size() > 1);
    if (want.valid.empty()) { c.label("nothing valid"); }
    for (const auto& [n, e] : want.valid)
    {
        if (std::count(n.begin(), n.end(), 1)) { c.label("with positive charges"); break; }
    }
}

PBT("exhaustive-simulation", 20000, 400000, "there are at least two physically valid charge distributions")
{
    switch (c.below(5))
    {
        case 0: exgs<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: exgs<sidb_111_cell_clk_lyt_siqad>(c); break;
        case 2: exgs<sidb_cell_clk_lyt_cube>(c); break;
        default: exgs<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(c); break;
    }
}

template <typename Lyt>
void exact(pbt::ctx& c)
{
    using params = quickexact_params<cell<Lyt>>;
    world w;
    w.base = c.flip() ? 3 : 2;
    const bool detect = c.flip();
    const auto l      = scene<Lyt>(c, w, detect || w.base == 3 ? 6 : 8, true);
    params     ps;
    ps.simulation_parameters = sm::sim(w);
    ps.base_number_detection = detect ? params::automatic_base_number_detection::ON : params::automatic_base_number_detection::OFF;
    if (c.chance(1, 4))
    {
        ps.global_potential = sm::round_to(c.real(-0.5, 0.5), 0.01);
        for (const auto& p : w.dots) { w.ext[p] += ps.global_potential; }
        c.label("global potential");
    }
    if (c.chance(1, 4))
    {
        for (std::uint64_t q = 1 + c.below(3); q-- > 0;)
        {
            const auto p = w.dots[c.below(w.dots.size())];
            const auto g = sm::round_to(c.real(-0.5, 0.5), 0.01);
            if (ps.local_external_potential.emplace(sm::cell<Lyt>(p), g).second) { w.ext[p] += g; }
        }
        c.label("local potential");
    }
    c.note(sm::describe(w), detect ? " base detection" : "");
    const auto want = sm::brute(w, detect ? 3 : w.base);
    const auto r    = quickexact(l, ps);
    REQUIRE_EQ(r.algorithm_name, "QuickExact", "name of the algorithm");
    compare(found(r, w, "QuickExact", true, true), want, "QuickExact", true);
    REQUIRE_EQ(l.num_cells(), w.dots.size(), "the simulated layout changed");
    c.nontrivial(want.valid.size() > 1);
    if (want.valid.empty()) { c.label("nothing valid"); }
    for (const auto& [n, e] : want.valid)
    {
        if (std::count(n.begin(), n.end(), 1)) { c.label("with positive charges"); break; }
    }
}

PBT("quickexact", 50000, 1000000, "there are at least two physically valid charge distributions")
{
    switch (c.below(5))
    {
        case 0: exact<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: exact<sidb_111_cell_clk_lyt_siqad>(c); break;
        case 2: exact<sidb_cell_clk_lyt_cube>(c); break;
        default: exact<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(c); break;
    }
}

template <typename Lyt>
void quick(pbt::ctx& c)
{
    world w;
    w.base       = c.flip() ? 3 : 2;
    const auto l = scene<Lyt>(c, w, 9, false);
    quicksim_params ps;
    ps.simulation_parameters = sm::sim(w);
    ps.iteration_steps       = 1 + c.below(20);
    ps.alpha                 = c.pick(std::vector<double>{0.7, 0.0, 0.3, 0.9, 1.0});
    ps.number_threads        = c.below(4);
    c.note(sm::describe(w), " ", ps.iteration_steps, " iterations, alpha ", ps.alpha, ", ", ps.number_threads, " threads");
    const auto r = quicksim(l, ps);
    REQUIRE_EQ(l.num_cells(), w.dots.size(), "the simulated layout changed");
    const auto want = sm::brute(w, 2);
    if (!r)
    {
        // the all-negative and the all-required-negative distributions are always tried
        const std::vector<int> all(w.dots.size(), -1);
        REQUIRE_THAT(!want.valid.count(all), "QuickSim reports nothing although " << sm::str(all) << " is physically valid");
        c.label("nothing");
        return;
    }
    REQUIRE_EQ(r->algorithm_name, "QuickSim", "name of the algorithm");
    REQUIRE_THAT(!r->charge_distributions.empty(), "QuickSim reports an empty result");
    const auto got = found(*r, w, "QuickSim", false, false);
    compare(got, want, "QuickSim", false);
    c.nontrivial(got.size() > 1);
}

PBT("quicksim", 8000, 150000, "it finds at least two different charge distributions")
{
    switch (c.below(3))
    {
        case 0: quick<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: quick<sidb_111_cell_clk_lyt_siqad>(c); break;
        default: quick<sidb_cell_clk_lyt_cube>(c); break;
    }
}

PBT("evaluation-of-results", 15000, 300000, "there are at least three distributions and a degenerate energy")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    using Cds = charge_distribution_surface<Lyt>;
    world w;
    // symmetric arrangements have degenerate states
    const auto half = sm::gen_dots(c, 1 + c.below(3), {6, 4, false});
    std::set<sm::pos> ds(half.begin(), half.end());
    if (c.chance(3, 4))
    {
        for (const auto& p : half) { ds.insert({20 - p.x, p.y, p.z}); }
    }
    w.dots.assign(ds.begin(), ds.end());
    const auto l = sm::build<Lyt>(w.dots);
    sm::gen_params(c, w);
    const Cds  base{l, sm::sim(w)};
    sm::adopt_order(w, base);
    w.freeze();
    c.note(sm::describe(w));

    const auto make = [&](const std::vector<int>& n)
    {
        Cds s{base};
        for (std::size_t i = 0; i < n.size(); ++i) { s.assign_charge_state_by_index(i, sm::cs(n[i])); }
        s.update_after_charge_change();
        return s;
    };
    std::vector<std::vector<int>> all;
    sm::for_all_configs(w.dots.size(), 3, [&](std::uint64_t, const std::vector<int>& n) { all.push_back(n); });
    std::vector<std::vector<int>> chosen;
    for (std::uint64_t i = c.below(9); i-- > 0;)
    {
        auto n = all[c.below(all.size())];
        chosen.push_back(n);
        if (c.flip())  // its mirror image
        {
            std::vector<int> m(n.size(), -1);
            for (std::size_t k = 0; k < n.size(); ++k)
            {
                const sm::pos q{20 - w.dots[k].x, w.dots[k].y, w.dots[k].z};
                const auto    it = std::find(w.dots.begin(), w.dots.end(), q);
                if (it != w.dots.end()) { m[static_cast<std::size_t>(it - w.dots.begin())] = n[k]; }
            }
            chosen.push_back(m);
        }
        if (c.chance(1, 4)) { chosen.push_back(n); }
    }
    c.shuffle(chosen);
    sidb_simulation_result<Lyt> r;
    for (const auto& n : chosen)
    {
        c.note(sm::str(n));
        r.charge_distributions.push_back(make(n));
    }
    const std::set<std::vector<int>>          distinct(chosen.begin(), chosen.end());
    std::vector<std::pair<double, std::vector<int>>> byenergy;
    for (const auto& n : distinct) { byenergy.emplace_back(w.energy(n), n); }
    std::sort(byenergy.begin(), byenergy.end());
    // energies must be clearly equal or clearly different
    std::vector<std::pair<double, std::vector<std::vector<int>>>> levels;
    for (const auto& [e, n] : byenergy)
    {
        if (!levels.empty() && e - levels.back().first < 1e-9) { levels.back().second.push_back(n); }
        else
        {
            if (!levels.empty() && e - levels.back().first < 3e-6) { throw pbt::discard{}; }
            levels.push_back({e, {n}});
        }
    }

    const auto me = minimum_energy(r.charge_distributions.cbegin(), r.charge_distributions.cend());
    const auto mi = minimum_energy_distribution(r.charge_distributions.cbegin(), r.charge_distributions.cend());
    if (chosen.empty())
    {
        REQUIRE_THAT(std::isinf(me) && me > 0, "minimum_energy of nothing is " << me);
        REQUIRE_THAT(mi == r.charge_distributions.cend(), "minimum_energy_distribution of nothing");
    }
    else
    {
        REQUIRE_THAT(sm::close(me, levels[0].first, 1e-7), "minimum_energy is " << me << ", expected " << levels[0].first);
        REQUIRE_THAT(mi != r.charge_distributions.cend() && mi->get_electrostatic_potential_energy() == me, "minimum_energy_distribution is not the one of minimum energy");
    }

    const auto configs = [&](const std::vector<Cds>& v)
    {
        std::vector<std::vector<int>> o;
        for (const auto& s : v) { o.push_back(sm::charges(s)); }
        std::sort(o.begin(), o.end());
        return o;
    };
    auto want = levels.empty() ? std::vector<std::vector<int>>{} : levels[0].second;
    std::sort(want.begin(), want.end());
    REQUIRE_THAT(configs(r.groundstates()) == want, "groundstates() are not exactly the distinct distributions of minimal energy");

    const auto ed = calculate_energy_distribution(r.charge_distributions);
    REQUIRE_EQ(ed.size(), levels.size(), "number of energy levels");
    REQUIRE_EQ(ed.empty(), levels.empty(), "emptiness of the energy distribution");
    std::size_t k = 0;
    ed.for_each(
        [&](const double e, const std::uint64_t d)
        {
            REQUIRE_THAT(sm::close(e, levels[k].first, 1e-7), "energy of level " << k << " is " << e << ", expected " << levels[k].first);
            REQUIRE_EQ(d, levels[k].second.size(), "degeneracy of level " << k);
            const auto s = ed.get_nth_state(k);
            REQUIRE_THAT(s.has_value() && s->electrostatic_potential_energy == e && s->degeneracy == d, "get_nth_state(" << k << ")");
            ++k;
        });
    REQUIRE_EQ(k, levels.size(), "number of levels visited by for_each");
    REQUIRE_THAT(!ed.get_nth_state(levels.size()).has_value(), "get_nth_state beyond the last level");
    if (!levels.empty())
    {
        REQUIRE_THAT(sm::close(ed.min_energy(), levels.front().first, 1e-7), "min_energy");
        REQUIRE_THAT(sm::close(ed.max_energy(), levels.back().first, 1e-7), "max_energy");
    }

    // equivalence of results: same distributions in any order; never with duplicates
    {
        sidb_simulation_result<Lyt> a, b;
        auto                        v = std::vector<std::vector<int>>(distinct.begin(), distinct.end());
        for (const auto& n : v) { a.charge_distributions.push_back(make(n)); }
        c.shuffle(v);
        for (const auto& n : v) { b.charge_distributions.push_back(make(n)); }
        REQUIRE_THAT(check_simulation_results_for_equivalence(a, b), "equal results in another order are not equivalent");
        if (!v.empty())
        {
            auto d = b;
            d.charge_distributions.pop_back();
            REQUIRE_THAT(!check_simulation_results_for_equivalence(a, d) && !check_simulation_results_for_equivalence(d, a), "a result with a missing distribution is equivalent");
            auto e = b;
            const auto n = all[c.below(all.size())];
            if (!distinct.count(n))
            {
                e.charge_distributions.back() = make(n);
                REQUIRE_THAT(!check_simulation_results_for_equivalence(a, e) && !check_simulation_results_for_equivalence(e, a), "results with a different distribution are equivalent");
            }
        }
        // the heuristic finds the ground state iff it has all of them
        sidb_simulation_result<Lyt> h;
        std::size_t                 hit = 0, got = 0;
        for (const auto& n : v)
        {
            if (c.flip())
            {
                h.charge_distributions.push_back(make(n));
                ++got;
                hit += std::find(want.begin(), want.end(), n) != want.end();
            }
        }
        // (a heuristic that returns nothing or only excited states has no more "ground states" than the exact one by contract)
        const auto hg = h.groundstates().size();
        if (hg <= want.size()) { REQUIRE_EQ(is_ground_state(h, a), !want.empty() && hit == want.size(), "is_ground_state with " << hit << " of " << want.size() << " ground states among " << got << " distributions"); }
    }
    c.nontrivial(levels.size() > 1 && distinct.size() > levels.size());
}
