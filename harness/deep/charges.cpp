// P31: the charge distribution surface reports the physics of exactly the charges, defects and potentials it holds
#include "sidb_common.hpp"

#include <fiction/algorithms/iter/gray_code_iterator.hpp>
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>

#include <memory>
#include <optional>

using namespace fiction;
using sm::world;

template <typename Cds>
struct inst
{
    std::unique_ptr<Cds> cds;
    world                w;
    std::vector<int>     n;
    bool                 index_known = true;
    bool                 fixed_cells = false;  // shares its cells with another instance
};

template <typename Lyt, typename Cds>
void agree(pbt::ctx& c, const Cds& s, const world& w, const std::vector<int>& n, const bool index_known, const std::string& when)
{
    const auto k = w.dots.size();
    REQUIRE_EQ(s.num_cells(), k, when << ": number of SiDBs");
    REQUIRE_EQ(s.get_sidb_order().size(), k, when << ": number of SiDBs in the order");
    REQUIRE_EQ(sm::charges(s).size(), k, when << ": number of charge states");
    std::size_t neg = 0, neu = 0, posi = 0;
    std::vector<std::uint64_t> detected;
    bool margin = false;
    for (std::size_t i = 0; i < k; ++i)
    {
        const auto x = sm::cell<Lyt>(w.dots[i]);
        REQUIRE_EQ(s.cell_to_index(x), static_cast<std::int64_t>(i), when << ": cell_to_index of SiDB " << sm::str(w.dots[i]));
        REQUIRE_THAT(s.index_to_cell(i) == x, when << ": index_to_cell(" << i << ")");
        REQUIRE_THAT(!s.is_empty_cell(x), when << ": SiDB " << sm::str(w.dots[i]) << " is not part of the layout");
        REQUIRE_EQ(sm::sign(s.get_charge_state(x)), n[i], when << ": charge state of SiDB " << i);
        REQUIRE_EQ(sm::sign(s.get_charge_state_by_index(i)), n[i], when << ": charge state by index of SiDB " << i);
        neg += n[i] == -1;
        neu += n[i] == 0;
        posi += n[i] == 1;

        const auto in = w.internal(i, n), ex = w.ext_at(w.dots[i]), de = w.defect_pot(i);
        const auto li = s.get_local_internal_potential_by_index(i);
        REQUIRE_THAT(li.has_value() && sm::close(*li, in), when << ": local internal potential at SiDB " << i << " is " << *li << ", expected " << in);
        REQUIRE_THAT(sm::close(*s.get_local_internal_potential(x), in), when << ": local internal potential at the cell of SiDB " << i);
        const auto le = s.get_local_external_potential_by_index(i);
        REQUIRE_THAT(le.has_value() && sm::close(*le, ex), when << ": local external potential at SiDB " << i << " is " << *le << ", expected " << ex);
        REQUIRE_THAT(sm::close(*s.get_local_external_potential(x), ex), when << ": local external potential at the cell of SiDB " << i);
        const auto ld = s.get_local_potential_caused_by_defects_by_index(i);
        REQUIRE_THAT(ld.has_value() && sm::close(*ld, de), when << ": potential caused by defects at SiDB " << i << " is " << *ld << ", expected " << de);
        REQUIRE_THAT(sm::close(*s.get_local_potential_caused_by_defects(x), de), when << ": potential caused by defects at the cell of SiDB " << i);
        REQUIRE_THAT(sm::close(*s.get_local_potential_by_index(i), in + ex), when << ": local potential at SiDB " << i);
        REQUIRE_THAT(sm::close(*s.get_local_potential(x), in + ex), when << ": local potential at the cell of SiDB " << i);
        const auto t = s.get_effective_charge_transition_thresholds(i);
        const std::array<double, 4> want{ex - w.mu + 1e-6, ex - w.mu_plus() - 1e-6, ex - w.mu - 1e-6, ex - w.mu_plus() + 1e-6};
        for (std::size_t q = 0; q < 4; ++q) { REQUIRE_THAT(std::abs(t[q] - want[q]) < 1e-8, when << ": charge transition threshold " << q << " of SiDB " << i << " is " << t[q] << ", expected " << want[q]); }
        const double d = w.mu - (in + ex);
        margin |= std::abs(d + 1e-6) < 1e-8;
        if (d < -1e-6) { detected.push_back(i); }

        for (std::size_t j = 0; j < k; ++j)
        {
            const auto y = sm::cell<Lyt>(w.dots[j]);
            const auto ds = sm::dist(w.lat, w.dots[i], w.dots[j]);
            const auto v  = w.v(i, j);
            REQUIRE_THAT(sm::close(s.get_nm_distance_by_indices(i, j), ds) && sm::close(s.get_nm_distance_between_sidbs(x, y), ds), when << ": distance of SiDBs " << i << ", " << j << " is " << s.get_nm_distance_by_indices(i, j) << ", expected " << ds);
            REQUIRE_THAT(sm::close(s.get_chargeless_potential_by_indices(i, j), v) && sm::close(s.get_chargeless_potential_between_sidbs(x, y), v) && sm::close(s.calculate_chargeless_potential_between_sidbs_by_index(i, j), v) && sm::close(s.calculate_chargeless_potential_between_sidbs(x, y), v),
                         when << ": chargeless potential between SiDBs " << i << ", " << j << " is " << s.get_chargeless_potential_by_indices(i, j) << ", expected " << v);
            REQUIRE_THAT(sm::close(s.get_potential_between_sidbs(x, y), v * n[j]), when << ": potential that SiDB " << j << " causes at SiDB " << i << " is " << s.get_potential_between_sidbs(x, y) << ", expected " << v * n[j]);
        }
    }
    REQUIRE_EQ(s.num_negative_sidbs(), neg, when << ": negative SiDBs");
    REQUIRE_EQ(s.num_neutral_sidbs(), neu, when << ": neutral SiDBs");
    REQUIRE_EQ(s.num_positive_sidbs(), posi, when << ": positive SiDBs");
    REQUIRE_EQ(s.charge_exists(sidb_charge_state::NEGATIVE), neg > 0, when << ": charge_exists(-)");
    REQUIRE_EQ(s.charge_exists(sidb_charge_state::NEUTRAL), neu > 0, when << ": charge_exists(0)");
    REQUIRE_EQ(s.charge_exists(sidb_charge_state::POSITIVE), posi > 0, when << ": charge_exists(+)");
    if (!margin) { REQUIRE_THAT(s.negative_sidb_detection() == detected, when << ": SiDBs that are negative under the present potentials"); }
    REQUIRE_EQ(s.get_defects().size(), w.defects.size(), when << ": number of charged defects");
    for (const auto& [p, d] : w.defects)
    {
        const auto l    = s.get_local_defect_potential(sm::cell<Lyt>(p));
        const auto want = w.at_defect(p, n) + w.ext_at(p);
        REQUIRE_THAT(l.has_value() && sm::close(*l, want), when << ": potential at the defect " << sm::str(p) << " is " << (l ? *l : -99.) << ", expected " << want);
    }
    const auto e = w.energy(n);
    REQUIRE_THAT(sm::close(s.get_electrostatic_potential_energy(), e), when << ": energy " << s.get_electrostatic_potential_energy() << ", expected " << e << " for " << sm::str(n));
    if (const auto v = w.validity(n); v >= 0)
    {
        REQUIRE_EQ(s.is_physically_valid(), v == 1, when << ": physical validity of " << sm::str(n));
        if (v == 1) { c.label("valid"); }
    }
    if (index_known)
    {
        REQUIRE_EQ(s.get_charge_index_and_base().first, sm::index_of(n, w.base), when << ": charge index of " << sm::str(n));
        REQUIRE_EQ(static_cast<unsigned>(s.get_charge_index_and_base().second), w.base, when << ": base of the charge index");
    }
}

template <typename Lyt>
void history(pbt::ctx& c)
{
    using Cds = charge_distribution_surface<Lyt>;
    std::vector<inst<Cds>> is;
    is.reserve(8);

    const auto fresh = [&]
    {
        inst<Cds> r;
        r.w.lat       = sm::lattice_of<Lyt>();
        const auto ds = sm::gen_dots(c, 1 + c.below(7), {14, 5, sm::is_signed_coord<Lyt>()});
        r.w.dots      = ds;
        sm::gen_params(c, r.w);
        r.w.base = c.flip() ? 3 : 2;
        auto l   = sm::build<Lyt>(ds);
        if constexpr (has_get_sidb_defect_v<Lyt>)
        {
            for (std::uint64_t i = c.below(3); i-- > 0;)
            {
                const auto [p, d] = sm::gen_defect(c, r.w);
                r.w.defects[p]    = d;
                l.assign_sidb_defect(sm::cell<Lyt>(p), sidb_defect{c.flip() ? sidb_defect_type::SI_VACANCY : sidb_defect_type::ARSENIC, d.charge, d.eps, d.lambda});
            }
            if (c.chance(1, 4))  // a neutral one has no influence
            {
                const auto [p, d] = sm::gen_defect(c, r.w);
                l.assign_sidb_defect(sm::cell<Lyt>(p), sidb_defect{sidb_defect_type::SILOXANE});
            }
        }
        const int s0 = c.flip() ? -1 : 0;
        r.cds        = std::make_unique<Cds>(l, sm::sim(r.w), sm::cs(s0));
        const auto order = r.cds->get_sidb_order();
        REQUIRE_THAT(std::is_sorted(order.begin(), order.end()), "the SiDBs are not in ascending order");
        sm::adopt_order(r.w, *r.cds);
        auto a = ds, b = r.w.dots;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        REQUIRE_THAT(a == b, "the charge distribution surface covers other SiDBs than the layout");
        r.n.assign(ds.size(), s0);
        c.note(is.size(), ": ", sm::describe(r.w), " initially ", sm::str(r.n));
        agree<Lyt>(c, *r.cds, r.w, r.n, true, "construction");
        return r;
    };
    is.push_back(fresh());

    // the defects that belong to the layout (restored when the cells change)
    std::vector<std::map<sm::pos, sm::defect>> home{is[0].w.defects};

    const auto ops = 4 + c.below(14);
    for (std::uint64_t k = 0; k < ops; ++k)
    {
        const auto  which = c.below(is.size());
        auto&       t     = is[which];
        auto&       s     = *t.cds;
        auto&       w     = t.w;
        auto&       n     = t.n;
        const auto  sz    = n.size();
        const auto  digit = [&] { return static_cast<int>(c.below(w.base)) - 1; };
        const auto  valid_in_base = [&](const unsigned b) { return b == 3 || std::find(n.begin(), n.end(), 1) == n.end(); };
        std::string what;
        switch (c.below(16))
        {
            case 0:
            case 1:
            {
                const auto i = c.below(sz);
                n[i]         = digit();
                if (c.flip()) { s.assign_charge_state(sm::cell<Lyt>(w.dots[i]), sm::cs(n[i])); }
                else { s.assign_charge_state_by_index(i, sm::cs(n[i])); }
                t.index_known = true;
                what          = "assign_charge_state " + std::to_string(i) + " " + sm::str(std::vector<int>{n[i]});
                break;
            }
            case 2:
            {
                const auto d = digit();
                n.assign(sz, d);
                s.assign_all_charge_states(sm::cs(d));
                t.index_known = true;
                what          = "assign_all " + sm::str(n);
                break;
            }
            case 3:
            {
                const auto mx = static_cast<std::uint64_t>(std::llround(std::pow(w.base, sz))) - 1;
                REQUIRE_EQ(s.get_max_charge_index(), mx, "max charge index");
                const auto ix = c.below(mx + 1);
                s.assign_charge_index(ix);
                auto q = ix;
                for (std::size_t i = sz; i-- > 0; q /= w.base) { n[i] = static_cast<int>(q % w.base) - 1; }
                t.index_known = true;
                what          = "assign_charge_index " + std::to_string(ix);
                break;
            }
            case 4:
            {
                if (!t.index_known) { what = "nothing"; break; }
                const auto steps = 1 + c.below(4);
                for (std::uint64_t q = 0; q < steps; ++q)
                {
                    auto       ix   = sm::index_of(n, w.base);
                    const bool last = ix == s.get_max_charge_index();
                    if (c.flip()) { s.increase_charge_index_by_one(); }
                    else { s.increase_charge_index_by_one(dependent_cell_mode::FIXED, energy_calculation::UPDATE_ENERGY, charge_distribution_history::NEGLECT); }
                    if (!last)
                    {
                        ++ix;
                        for (std::size_t i = sz; i-- > 0; ix /= w.base) { n[i] = static_cast<int>(ix % w.base) - 1; }
                    }
                }
                what = "increase_charge_index x" + std::to_string(steps);
                break;
            }
            case 5:
            {
                if (w.defects.size() > 3) { what = "nothing"; break; }
                const auto [p, d] = sm::gen_defect(c, w);
                auto q            = p;
                if (!w.defects.empty() && c.chance(1, 3)) { q = w.defects.begin()->first; }  // replaces that defect
                s.add_sidb_defect_to_potential_landscape(sm::cell<Lyt>(q), sidb_defect{sidb_defect_type::SI_VACANCY, d.charge, d.eps, d.lambda});
                w.defects[q] = d;
                what         = "add defect " + sm::str(q);
                break;
            }
            case 6:
            {
                // no charged defect, or one on top of an SiDB: neither has an influence
                const auto [p, d] = sm::gen_defect(c, w);
                if (c.flip()) { s.add_sidb_defect_to_potential_landscape(sm::cell<Lyt>(p), sidb_defect{sidb_defect_type::SILOXANE, 0, 3.0, 3.0}); }
                else { s.add_sidb_defect_to_potential_landscape(sm::cell<Lyt>(w.dots[c.below(sz)]), sidb_defect{sidb_defect_type::SI_VACANCY, -1, 3.0, 3.0}); }
                what = "add defect without influence";
                break;
            }
            case 7:
            {
                if (w.defects.empty() || c.chance(1, 5))
                {
                    s.erase_defect(sm::cell<Lyt>(w.dots[0]));
                    what = "erase defect that does not exist";
                    break;
                }
                auto it = w.defects.begin();
                std::advance(it, static_cast<long>(c.below(w.defects.size())));
                s.erase_defect(sm::cell<Lyt>(it->first));
                what = "erase defect " + sm::str(it->first);
                w.defects.erase(it);
                break;
            }
            case 8:
            {
                const double g = c.chance(1, 5) ? 0.0 : sm::round_to(c.real(-0.5, 0.5), 0.01);
                s.assign_global_external_potential(g);
                for (const auto& p : w.dots) { w.ext[p] += g; }
                what = "global external potential " + std::to_string(g);
                break;
            }
            case 9:
            {
                std::unordered_map<typename Lyt::cell, double> m;
                for (std::uint64_t q = 1 + c.below(3); q-- > 0;)
                {
                    auto p = w.dots[c.below(sz)];
                    if (!w.defects.empty() && c.chance(1, 4)) { p = w.defects.begin()->first; }
                    const double g = sm::round_to(c.real(-0.5, 0.5), 0.01);
                    if (m.emplace(sm::cell<Lyt>(p), g).second)
                    {
                        w.ext[p] += g;
                        what += "local external potential " + sm::str(p) + "=" + std::to_string(g) + " ";
                    }
                }
                s.assign_local_external_potential(m);
                break;
            }
            case 10:
                s.reset_local_external_potentials();
                w.ext.clear();
                what = "reset external potentials";
                break;
            case 11:
            {
                const auto b = c.flip() ? 3u : 2u;
                if (!valid_in_base(b)) { what = "nothing"; break; }
                auto v = w;
                sm::gen_params(c, v);
                w.mu = v.mu, w.eps = v.eps, w.lambda = v.lambda;
                t.index_known = t.index_known && b == w.base;
                w.base        = b;
                s.assign_physical_parameters(sm::sim(w));
                const auto p = s.get_simulation_params();
                REQUIRE_THAT(p.mu_minus == w.mu && p.epsilon_r == w.eps && p.lambda_tf == w.lambda && p.base == b, "assign_physical_parameters stores other parameters");
                what = "physical parameters " + sm::describe(w);
                break;
            }
            case 12:
            {
                const auto b = c.flip() ? 3u : 2u;
                if (!valid_in_base(b)) { what = "nothing"; break; }
                s.assign_base_number(static_cast<std::uint8_t>(b));
                t.index_known = t.index_known && b == w.base;
                w.base        = b;
                what          = "base " + std::to_string(b);
                break;
            }
            case 13:
            {
                if (t.fixed_cells) { what = "nothing"; break; }
                sm::pos p{static_cast<int>(c.below(14)), static_cast<int>(c.below(5)), static_cast<int>(c.below(2))};
                auto    x = std::find(w.dots.begin(), w.dots.end(), p);
                if (home[which].count(p) || (x == w.dots.end() && sz > 7)) { what = "nothing"; break; }
                if (x == w.dots.end() && sz > 1 && c.flip())
                {
                    x = w.dots.begin() + static_cast<long>(c.below(sz));
                    p = *x;
                }
                if (x == w.dots.end())
                {
                    s.assign_cell_type(sm::cell<Lyt>(p), c.flip() ? Lyt::cell_type::NORMAL : Lyt::cell_type::INPUT);
                    w.dots.push_back(p);
                    what = "add SiDB " + sm::str(p);
                }
                else
                {
                    if (sz == 1) { what = "nothing"; break; }
                    s.assign_cell_type(sm::cell<Lyt>(p), Lyt::cell_type::EMPTY);
                    w.dots.erase(x);
                    what = "remove SiDB " + sm::str(p);
                }
                auto before = w.dots;
                sm::adopt_order(w, s);
                auto after = w.dots;
                std::sort(before.begin(), before.end());
                std::sort(after.begin(), after.end());
                REQUIRE_THAT(before == after, what << ": the charge distribution surface covers other SiDBs than its layout");
                w.defects = home[which];
                w.ext.clear();
                n.assign(w.dots.size(), -1);
                t.index_known = true;
                break;
            }
            case 14:
            {
                if (is.size() > 3) { what = "nothing"; break; }
                if (c.flip() || is.size() < 2)
                {
                    is.push_back(fresh());
                    home.push_back(is.back().w.defects);
                    what = "another surface";
                    break;
                }
                // assignment between surfaces
                const auto o  = c.below(is.size());
                auto&      src = is[o];
                t.w           = src.w;
                t.n           = src.n;
                t.index_known = src.index_known;
                home[which]   = home[o];
                if (o != which)
                {
                    if (c.flip())
                    {
                        *t.cds = *src.cds;
                        t.fixed_cells = src.fixed_cells = true;
                    }
                    else
                    {
                        *t.cds        = src.cds->clone();
                        t.fixed_cells = false;
                    }
                }
                what = "assignment of surface " + std::to_string(o);
                c.label("assign");
                break;
            }
            default:
            {
                if (is.size() > 3) { what = "nothing"; break; }
                inst<Cds> r;
                r.w           = w;
                r.n           = n;
                r.index_known = t.index_known;
                if (c.flip())
                {
                    r.cds         = std::make_unique<Cds>(s.clone());
                    r.fixed_cells = false;
                    what          = "clone";
                }
                else
                {
                    r.cds         = std::make_unique<Cds>(s);
                    r.fixed_cells = t.fixed_cells = true;
                    what          = "copy";
                }
                home.push_back(home[which]);
                is.push_back(std::move(r));
                c.label("copy");
            }
        }
        c.note("surface ", which, ": ", what);
        is[which].cds->update_after_charge_change();
        for (std::size_t q = 0; q < is.size(); ++q)
        {
            agree<Lyt>(c, *is[q].cds, is[q].w, is[q].n, is[q].index_known, "surface " + std::to_string(q) + " after " + what + " on surface " + std::to_string(which));
        }
    }
    c.nontrivial(is[0].w.dots.size() > 1);
}

PBT("surface-histories", 30000, 600000, "the surface holds more than one SiDB")
{
    switch (c.below(5))
    {
        case 0: history<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: history<sidb_111_cell_clk_lyt_cube>(c); break;
        case 2: history<sidb_cell_clk_lyt>(c); break;
        case 3: history<sidb_defect_surface<sidb_111_cell_clk_lyt_siqad>>(c); break;
        default: history<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(c); break;
    }
}

// every configuration by counting, with and without a cell whose charge follows from the others
template <typename Lyt>
void enumerate(pbt::ctx& c)
{
    using Cds = charge_distribution_surface<Lyt>;
    world w;
    w.lat  = sm::lattice_of<Lyt>();
    w.dots = sm::gen_dots(c, 2 + c.below(5));
    if (w.dots.size() < 2) { throw pbt::discard{}; }
    sm::gen_params(c, w);
    w.base = c.flip() ? 3 : 2;
    Cds s{sm::build<Lyt>(w.dots), sm::sim(w)};
    sm::adopt_order(w, s);
    for (std::uint64_t i = c.below(3); i-- > 0;)
    {
        const auto [p, d] = sm::gen_defect(c, w);
        w.defects[p]      = d;
        s.add_sidb_defect_to_potential_landscape(sm::cell<Lyt>(p), sidb_defect{sidb_defect_type::SI_VACANCY, d.charge, d.eps, d.lambda});
    }
    if (c.chance(1, 3))
    {
        const double g = sm::round_to(c.real(-0.3, 0.3), 0.01);
        const auto   p = w.dots[c.below(w.dots.size())];
        s.assign_local_external_potential({{sm::cell<Lyt>(p), g}});
        w.ext[p] += g;
    }
    const auto n      = w.dots.size();
    const auto dep    = c.below(n);
    const bool gray   = c.flip();
    if (gray)
    {
        w.base = 2;
        s.assign_base_number(2);
    }
    c.note(sm::describe(w), " dependent SiDB ", dep, gray ? " gray code" : " counting");
    s.assign_all_charge_states(gray ? sidb_charge_state::NEUTRAL : sidb_charge_state::NEGATIVE);
    s.assign_dependent_cell(sm::cell<Lyt>(w.dots[dep]));
    std::uint64_t total = 1;
    for (std::size_t i = 1; i < n; ++i) { total *= w.base; }
    REQUIRE_EQ(s.get_max_charge_index(), total - 1, "max charge index with a dependent SiDB");
    if (!gray) { s.assign_charge_index(0); }
    s.update_after_charge_change(dependent_cell_mode::VARIABLE);

    std::set<std::vector<int>> seen;
    bool                       neutral = false, positive = false;
    const auto check = [&](const std::string& when)
    {
        const auto q = sm::charges(s);
        auto       others = q;
        others.erase(others.begin() + static_cast<long>(dep));
        REQUIRE_THAT(seen.insert(others).second, when << ": the configuration of the other SiDBs repeats: " << sm::str(q));
        for (const int x : others) { REQUIRE_THAT(x < static_cast<int>(w.base) - 1, when << ": charge " << x << " in base " << w.base); }
        for (std::size_t i = 0; i < n; ++i)
        {
            REQUIRE_THAT(sm::close(*s.get_local_internal_potential_by_index(i), w.internal(i, q), 1e-7), when << ": local potential at SiDB " << i << " is " << *s.get_local_internal_potential_by_index(i) << ", expected " << w.internal(i, q) << " for " << sm::str(q));
        }
        // the dependent SiDB has the charge that its local potential asks for
        const double u = -w.local(dep, q);
        if (std::abs(u + w.mu) > 4e-6 && std::abs(u + w.mu_plus()) > 4e-6)
        {
            const int want = u < -w.mu ? -1 : u > -w.mu_plus() ? 1 : 0;
            if (want != 1 || w.base == 3) { REQUIRE_EQ(q[dep], want, when << ": charge of the dependent SiDB in " << sm::str(q)); }
        }
        neutral |= q[dep] == 0;
        positive |= q[dep] == 1;
        const auto v = w.validity(q);
        if (v >= 0) { REQUIRE_EQ(s.is_physically_valid(), v == 1, when << ": physical validity of " << sm::str(q)); }
        s.recompute_electrostatic_potential_energy();
        REQUIRE_THAT(sm::close(s.get_electrostatic_potential_energy(), w.energy(q), 1e-7), when << ": energy of " << sm::str(q) << " is " << s.get_electrostatic_potential_energy() << ", expected " << w.energy(q));
    };
    if (gray)
    {
        std::uint64_t previous = 0;
        gray_code_iterator gci{0};
        for (gci = 0; gci <= s.get_max_charge_index(); ++gci)
        {
            s.assign_charge_index_by_gray_code(*gci, previous, dependent_cell_mode::VARIABLE, energy_calculation::KEEP_OLD_ENERGY_VALUE, charge_distribution_history::CONSIDER);
            previous = *gci;
            check("gray code " + std::to_string(*gci));
        }
    }
    else
    {
        check("index 0");
        for (std::uint64_t i = 1; i < total; ++i)
        {
            s.increase_charge_index_by_one(dependent_cell_mode::VARIABLE, c.flip() ? energy_calculation::UPDATE_ENERGY : energy_calculation::KEEP_OLD_ENERGY_VALUE);
            REQUIRE_EQ(s.get_charge_index_and_base().first, i, "charge index while counting");
            check("index " + std::to_string(i));
        }
        // from any configuration back to its index and forth
        const auto ix = c.below(total);
        s.assign_charge_index(ix);
        s.charge_distribution_to_index();
        REQUIRE_EQ(s.get_charge_index_and_base().first, ix, "index -> distribution -> index with a dependent SiDB");
    }
    REQUIRE_EQ(seen.size(), total, "number of configurations visited");
    c.nontrivial(neutral || positive);
}

PBT("enumeration-with-dependent-sidb", 15000, 300000, "the dependent SiDB is neutral or positive in at least one configuration")
{
    switch (c.below(3))
    {
        case 0: enumerate<sidb_100_cell_clk_lyt_siqad>(c); break;
        case 1: enumerate<sidb_111_cell_clk_lyt_siqad>(c); break;
        default: enumerate<sidb_cell_clk_lyt_cube>(c); break;
    }
}

PBT("positive-charges", 15000, 300000, "the answer is true")
{
    using Lyt = sidb_100_cell_clk_lyt_siqad;
    world w;
    w.dots = sm::gen_dots(c, 1 + c.below(7));
    sm::gen_params(c, w);
    c.note(sm::describe(w));
    const auto             l = sm::build<Lyt>(w.dots);
    const std::vector<int> n(w.dots.size(), -1);
    bool                   want = false;
    for (std::size_t i = 0; i < n.size(); ++i)
    {
        const double u = -w.internal(i, n) + w.mu_plus();
        if (std::abs(u) < 4e-6) { throw pbt::discard{}; }
        want |= u > 0;
    }
    REQUIRE_EQ(can_positive_charges_occur(l, sm::sim(w)), want, "can_positive_charges_occur");
    charge_distribution_surface<Lyt> s{l, sm::sim(w)};
    REQUIRE_EQ(s.is_three_state_simulation_required(), want, "is_three_state_simulation_required");
    std::set<siqad::coord_t> a, b;
    for (const auto& x : s.get_positive_candidates()) { a.insert(x); }
    for (std::size_t i = 0; i < n.size(); ++i)
    {
        if (-w.internal(i, n) + w.mu_plus() > 0) { b.insert(sm::cell<Lyt>(w.dots[i])); }
    }
    REQUIRE_THAT(a == b, "the SiDBs that can be positive are not the reported ones");
    c.nontrivial(want);
}
