// P33: BDL pairs, BDL wires, input patterns, and operational status of SiDB gates
#include "gates_common.hpp"

#include <fiction/algorithms/simulation/sidb/verify_logic_match.hpp>

using namespace fiction;
using gm::gate;
using sm::pos;
using sm::world;

template <typename Lyt>
static std::pair<pos, pos> pair_of(const bdl_pair<cell<Lyt>>& p) { return {sm::position<Lyt>(p.upper), sm::position<Lyt>(p.lower)}; }

// ------------------------------------------------------------------------------------------------------------ BDL pairs
template <typename Lyt>
static void pairs(pbt::ctx& c)
{
    using T = typename Lyt::cell_type;
    const auto lat = sm::lattice_of<Lyt>();
    auto       ds  = sm::gen_dots(c, c.below(13), {10, 5, sm::is_signed_coord<Lyt>()});
    std::map<pos, T> type;
    Lyt              l{};
    const auto       uniform = c.below(3);
    for (const auto& p : ds)
    {
        type[p] = uniform == 0 ? T::NORMAL : c.pick(std::vector<T>{T::NORMAL, T::NORMAL, T::INPUT, T::OUTPUT, T::LOGIC});
        l.assign_cell_type(sm::cell<Lyt>(p), type[p]);
    }
    detect_bdl_pairs_params ps{};
    if (c.flip())
    {
        ps.minimum_distance = sm::round_to(c.real(0.0, 1.5), 0.01);
        ps.maximum_distance = ps.minimum_distance + sm::round_to(c.real(0.0, 2.0), 0.01);
    }
    c.note("distances " + std::to_string(ps.minimum_distance) + " to " + std::to_string(ps.maximum_distance));
    bool some = false;
    std::vector<std::pair<pos, pos>> by_type;
    std::vector<T>                   types_found;
    for (const auto t : {T::INPUT, T::OUTPUT, T::NORMAL, T::LOGIC})
    {
        const auto            got = detect_bdl_pairs(l, t, ps);
        std::map<pos, double> paired;
        for (std::size_t i = 0; i < got.size(); ++i)
        {
            const auto [u, v] = pair_of<Lyt>(got[i]);
            REQUIRE_THAT(type.count(u) && type.count(v) && type[u] == t && type[v] == t && got[i].type == t, "a BDL pair joins dots of another type");
            REQUIRE_THAT(u < v, "upper and lower dot of a BDL pair are exchanged");
            const double d = sm::dist(lat, u, v);
            REQUIRE_THAT(d >= ps.minimum_distance - 1e-9 && d <= ps.maximum_distance + 1e-9, "the dots of a BDL pair are " << d << " nm apart");
            REQUIRE_THAT(paired.emplace(u, d).second && paired.emplace(v, d).second, "a dot belongs to two BDL pairs");
            if (i) { REQUIRE_THAT(got[i - 1] < got[i], "BDL pairs are not sorted"); }
            if (t != T::LOGIC)
            {
                by_type.push_back({u, v});
                types_found.push_back(t);
            }
        }
        // closest pairs first: any admissible couple has a partner that is paired at least as closely
        for (std::size_t i = 0; i < ds.size(); ++i)
        {
            for (std::size_t j = i + 1; j < ds.size(); ++j)
            {
                if (type[ds[i]] != t || type[ds[j]] != t) { continue; }
                const double d = sm::dist(lat, ds[i], ds[j]);
                if (d < ps.minimum_distance + 1e-9 || d > ps.maximum_distance - 1e-9) { continue; }
                const auto a = paired.find(ds[i]), b = paired.find(ds[j]);
                REQUIRE_THAT((a != paired.end() && a->second <= d + 1e-9) || (b != paired.end() && b->second <= d + 1e-9), "dots " << sm::str(ds[i]) << " and " << sm::str(ds[j]) << " should have been paired");
                some = true;
            }
        }
    }
    const auto all = detect_bdl_pairs<Lyt>(l, std::nullopt, ps);
    REQUIRE_EQ(all.size(), by_type.size(), "pairs of all types");
    for (std::size_t i = 0; i < all.size(); ++i)
    {
        REQUIRE_THAT(pair_of<Lyt>(all[i]) == by_type[i] && all[i].type == types_found[i], "pairs of all types are not the input, output, and normal pairs");
    }
    c.nontrivial(some);
}

PBT("bdl-pairs", 40000, 800000, "some dots can be paired")
{
    switch (c.below(4))
    {
        case 0: pairs<sidb_100_cell_clk_lyt>(c); break;
        case 1: pairs<sidb_100_cell_clk_lyt_cube>(c); break;
        case 2: pairs<sidb_111_cell_clk_lyt_siqad>(c); break;
        default: pairs<sidb_100_cell_clk_lyt_siqad>(c);
    }
}

// ---------------------------------------------------------------------------------------------- BDL wires and input patterns
template <typename Lyt>
static void compare_wires(const std::vector<bdl_wire<Lyt>>& got, const std::vector<gm::wire>& want, const std::string& what)
{
    REQUIRE_EQ(got.size(), want.size(), what << ": number of wires");
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        std::set<std::pair<pos, pos>> a, b;
        for (const auto& p : got[i].pairs) { a.insert(pair_of<Lyt>(p)); }
        for (const auto& p : want[i].pairs) { b.insert(std::minmax(p[0], p[1])); }
        REQUIRE_THAT(a == b && a.size() == got[i].pairs.size(), what << ": wire " << i << " consists of other BDL pairs");
    }
}

template <typename Lyt>
static void check_port(const bdl_wire<Lyt>& w, const gm::wire& m, const gm::flow f, const std::string& what)
{
    static constexpr port_direction::cardinal ports[] = {port_direction::SOUTH, port_direction::NORTH, port_direction::EAST, port_direction::WEST};
    if (m.pairs.size() < 2)
    {
        REQUIRE_THAT(w.port.dir == port_direction::NONE, what << ": a wire of one BDL pair has a direction");
        return;
    }
    REQUIRE_THAT(w.port.dir == ports[static_cast<int>(f)], what << ": a wire has direction " << static_cast<int>(w.port.dir));
    REQUIRE_THAT(w.first_bdl_pair && w.last_bdl_pair, what << ": a wire has no ends");
    REQUIRE_THAT(pair_of<Lyt>(*w.first_bdl_pair) == (std::pair<pos, pos>{std::minmax(m.pairs.front()[0], m.pairs.front()[1])}), what << ": first BDL pair of a wire");
    REQUIRE_THAT(pair_of<Lyt>(*w.last_bdl_pair) == (std::pair<pos, pos>{std::minmax(m.pairs.back()[0], m.pairs.back()[1])}), what << ": last BDL pair of a wire");
}

template <typename Lyt>
static void expect_pattern(const Lyt& l, const gate& g, const std::uint64_t pattern, const std::string& what)
{
    const auto      ds = g.dots(pattern);
    REQUIRE_THAT(gm::positions(l) == std::set<pos>(ds.begin(), ds.end()), what << ": the layout for input pattern " << pattern << " has other dots");
    REQUIRE_EQ(l.num_cells(), ds.size(), what << ": cells of the layout for input pattern " << pattern);
    const auto in = g.perturbers(pattern);
    REQUIRE_EQ(l.num_pis(), in.size(), what << ": inputs of the layout for input pattern " << pattern);
    for (const auto& p : in) { REQUIRE_THAT(l.get_cell_type(sm::cell<Lyt>(p)) == Lyt::cell_type::INPUT, what << ": a perturber is no input"); }
    for (const auto& p : g.canvas) { REQUIRE_THAT(l.get_cell_type(sm::cell<Lyt>(p)) == Lyt::cell_type::LOGIC, what << ": a canvas dot changed its type"); }
}

template <typename Lyt>
static void inputs(pbt::ctx& c)
{
    gm::gate_opts o;
    o.max_permanent = 30;
    const auto g    = gm::gen_gate(c, o);
    c.note(gm::describe(g));
    const auto l  = gm::build<Lyt>(g);
    const auto ps = gm::iterator_params(g);
    // wires
    std::vector<gm::wire> full_in, full_out, in, out;
    for (std::size_t i = 0; i < g.num_in(); ++i)
    {
        full_in.push_back(g.in(i));
        in.push_back(g.in(i));
        if (in.back().out) { in.back().pairs.pop_back(); }
    }
    for (std::size_t i = 0; i < g.num_out(); ++i)
    {
        full_out.push_back(g.out(i));
        out.push_back(g.out(i));
        if (out.back().in) { out.back().pairs.erase(out.back().pairs.begin()); }
    }
    const auto wi = detect_bdl_wires(l, ps.bdl_wire_params, bdl_wire_selection::INPUT);
    const auto wo = detect_bdl_wires(l, ps.bdl_wire_params, bdl_wire_selection::OUTPUT);
    compare_wires<Lyt>(wi, in, "input wires");
    compare_wires<Lyt>(wo, out, "output wires");
    for (std::size_t i = 0; i < wi.size(); ++i) { check_port<Lyt>(wi[i], full_in[i], g.dir, "input wires"); }
    for (std::size_t i = 0; i < wo.size(); ++i) { check_port<Lyt>(wo[i], full_out[i], g.dir, "output wires"); }
    // all wires form a partition of all pairs
    const auto                    wa = detect_bdl_wires(l, ps.bdl_wire_params, bdl_wire_selection::ALL);
    std::set<std::pair<pos, pos>> seen, pairs_;
    std::size_t                   n = 0;
    for (const auto& w : wa)
    {
        for (const auto& p : w.pairs) { seen.insert(pair_of<Lyt>(p)), ++n; }
    }
    for (const auto& p : detect_bdl_pairs<Lyt>(l, std::nullopt, ps.bdl_wire_params.bdl_pairs_params)) { pairs_.insert(pair_of<Lyt>(p)); }
    REQUIRE_THAT(seen == pairs_ && n == seen.size(), "the wires do not partition the BDL pairs");
    // input patterns
    const auto           k = g.num_in();
    const std::uint64_t  m = 1ull << k;
    const bool           with_wires = c.flip();
    bdl_input_iterator<Lyt> it = with_wires ? bdl_input_iterator<Lyt>{l, ps, wi} : bdl_input_iterator<Lyt>{l, ps};
    REQUIRE_EQ(it.num_input_pairs(), k, "num_input_pairs");
    std::uint64_t at = 0;
    expect_pattern<Lyt>(*it, g, at, "initial iterator");
    for (int step = 0; step < 10; ++step)
    {
        const int d = static_cast<int>(c.below(m));
        switch (c.below(9))
        {
            case 0: ++it, ++at; break;
            case 1:
            {
                // copies share the layout's storage, so the returned iterator is only asked for its index
                const auto old = it++;
                REQUIRE_EQ(old.get_current_input_index(), at, "post-increment returns the old position");
                ++at;
                break;
            }
            case 2: if (at) { --it, --at; } break;
            case 3:
                if (at)
                {
                    const auto old = it--;
                    REQUIRE_EQ(old.get_current_input_index(), at, "post-decrement returns the old position");
                    --at;
                }
                break;
            case 4: it += d, at += static_cast<std::uint64_t>(d); break;
            case 5: if (at >= static_cast<std::uint64_t>(d)) { it -= d, at -= static_cast<std::uint64_t>(d); } break;
            case 6: it = static_cast<std::uint64_t>(d), at = static_cast<std::uint64_t>(d); break;
            case 7:
            {
                const auto other = it + d;
                REQUIRE_EQ(other.get_current_input_index(), at + static_cast<std::uint64_t>(d), "operator+");
                REQUIRE_EQ(other - it, static_cast<std::int64_t>(d), "difference of iterators");
                REQUIRE_EQ(it[d].get_current_input_index(), at + static_cast<std::uint64_t>(d), "operator[]");
                it = at;
                break;
            }
            default:
                if (at >= static_cast<std::uint64_t>(d))
                {
                    const auto other = it - d;
                    REQUIRE_EQ(other.get_current_input_index(), at - static_cast<std::uint64_t>(d), "operator-");
                    it = at;
                }
        }
        if (at >= m)
        {
            it = 0;
            at = 0;
        }
        REQUIRE_EQ(it.get_current_input_index(), at, "input index");
        const auto q = c.below(m);
        REQUIRE_THAT((it == q) == (at == q) && (it != q) == (at != q) && (it < q) == (at < q) && (it <= q) == (at <= q) && (it > q) == (at > q) && (it >= q) == (at >= q), "comparison of an iterator at " << at << " with " << q);
        expect_pattern<Lyt>(*it, g, at, "iterator");
    }
    const auto ls = with_wires ? generate_bdl_input_pattern_layouts(l, ps, wi) : generate_bdl_input_pattern_layouts(l, ps);
    REQUIRE_EQ(ls.size(), m, "number of input pattern layouts");
    for (std::uint64_t p = 0; p < m; ++p) { expect_pattern<Lyt>(ls[p], g, p, "input pattern layouts"); }
    // the given layout is untouched
    const auto again = gm::build<Lyt>(g);
    REQUIRE_THAT(gm::positions(again) == gm::positions(l) && l.num_pis() == 2 * k, "iterating the input patterns changed the given layout");
    c.nontrivial(k > 1);
}

PBT("wires-and-input-patterns", 12000, 250000, "the gate has two inputs")
{
    switch (c.below(3))
    {
        case 0: inputs<sidb_100_cell_clk_lyt>(c); break;
        case 1: inputs<sidb_100_cell_clk_lyt_cube>(c); break;
        default: inputs<sidb_100_cell_clk_lyt_siqad>(c);
    }
}

// ---------------------------------------------------------------------------------------------------- operational status
template <typename Lyt>
static void status(pbt::ctx& c)
{
    world w;
    w.base = c.below(4) == 0 ? 3 : 2;
    gm::gate_opts o;
    o.max_permanent = w.base == 3 ? 5 : 8;
    auto g          = gm::gen_gate(c, o);
    sm::gen_params(c, w);
    gm::gen_spec(c, g, w);
    c.note(gm::describe(g) + " mu " + std::to_string(w.mu) + " eps " + std::to_string(w.eps) + " lambda " + std::to_string(w.lambda) + " base " + std::to_string(w.base));
    const std::uint64_t m = 1ull << g.num_in();
    std::vector<gm::verdict> v;
    for (std::uint64_t p = 0; p < m; ++p)
    {
        v.push_back(gm::judge(g, w, p));
        if (!v.back().sure) { throw pbt::discard{}; }
    }
    const auto            l = gm::build<Lyt>(g);
    is_operational_params ps{};
    ps.simulation_parameters     = sm::sim(w);
    ps.input_bdl_iterator_params = gm::iterator_params(g);
    ps.sim_engine                = c.flip() ? sidb_simulation_engine::QUICKEXACT : sidb_simulation_engine::EXGS;
    const auto wi = detect_bdl_wires(l, ps.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::INPUT);
    const auto wo = detect_bdl_wires(l, ps.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::OUTPUT);
    Lyt        canvas{};
    for (const auto& p : g.canvas) { canvas.assign_cell_type(sm::cell<Lyt>(p), Lyt::cell_type::LOGIC); }

    bool op[2] = {true, true};
    std::set<std::uint64_t> good[2], kinked;
    for (int r = 0; r < 2; ++r)
    {
        for (std::uint64_t p = 0; p < m; ++p)
        {
            const bool ok = v[p].operational(r == 1, w.base);
            op[r] &= ok;
            if (ok) { good[r].insert(p); }
            if (r == 1 && !ok && v[p].operational(false, w.base)) { kinked.insert(p); }
        }
    }
    for (int r = 0; r < 2; ++r)
    {
        ps.op_condition = r ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
        const std::string what = r ? " (rejecting kinks)" : " (tolerating kinks)";
        const bool        filter = c.below(3) == 0;
        ps.strategy_to_analyze_operational_status = filter ? is_operational_params::operational_analysis_strategy::FILTER_THEN_SIMULATION : is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
        // the filters assume that the input perturbers are negative, that dots outside wires and canvas are negative, and that no dot is positive
        bool applicable = !filter || r == 0 || g.canvas.empty();
        if (!applicable)
        {
            applicable = true;
            for (std::uint64_t p = 0; p < m; ++p)
            {
                applicable &= !v[p].positive;
                for (const auto& n : v[p].ground)
                {
                    const gm::config s{&v[p].w, &n};
                    for (const auto& q : g.perturbers(p)) { applicable &= s.at(q) == -1; }
                    for (const auto& q : g.extra) { applicable &= s.at(q) == -1; }
                }
            }
            if (!applicable) { ps.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::SIMULATION_ONLY; }
            else { c.label("filtered"); }
        }
        std::pair<operational_status, std::size_t> s;
        switch (c.below(4))
        {
            case 0: s = is_operational(l, g.spec, ps); break;
            case 1: s = is_operational(l, g.spec, ps, wi, wo); break;
            case 2: s = is_operational(l, g.spec, ps, wi, wo, std::optional<Lyt>{canvas}); break;
            default: s = is_operational(generate_bdl_input_pattern_layouts(l, ps.input_bdl_iterator_params), g.spec, ps, wi, wo);
        }
        REQUIRE_EQ(s.first == operational_status::OPERATIONAL, op[r], "is_operational" << what);
        REQUIRE_THAT(s.second <= m && (s.first != operational_status::OPERATIONAL || s.second == m), "is_operational counts " << s.second << " simulations");
        const auto pats = c.flip() ? operational_input_patterns(l, g.spec, ps) : operational_input_patterns(l, g.spec, ps, wi, wo, c.flip() ? std::optional<Lyt>{canvas} : std::nullopt);
        REQUIRE_THAT(pats == good[r], "operational input patterns" << what);
        if (r && op[1] && !g.canvas.empty())
        {
            // a gate that is operational must pass the filters
            bool usual = true;
            for (std::uint64_t p = 0; p < m; ++p)
            {
                usual &= !v[p].positive;
                for (const auto& n : v[p].ground)
                {
                    const gm::config q{&v[p].w, &n};
                    for (const auto& x : g.perturbers(p)) { usual &= q.at(x) == -1; }
                    for (const auto& x : g.extra) { usual &= q.at(x) == -1; }
                }
            }
            if (usual)
            {
                auto fp = ps;
                fp.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::FILTER_ONLY;
                REQUIRE_THAT(is_operational(l, g.spec, fp).first == operational_status::OPERATIONAL, "filtering rejects an operational gate");
                c.label("operational gate filtered");
            }
        }
    }
    ps.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
    ps.op_condition = c.flip() ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    const auto kp = c.flip() ? kink_induced_non_operational_input_patterns(l, g.spec, ps) : kink_induced_non_operational_input_patterns(l, g.spec, ps, wi, wo, c.flip() ? std::optional<Lyt>{canvas} : std::nullopt);
    REQUIRE_THAT(kp == kinked, "input patterns that are non-operational only because of kinks");
    const bool ki = c.flip() ? is_kink_induced_non_operational(l, g.spec, ps) : is_kink_induced_non_operational(l, g.spec, ps, wi, wo, c.flip() ? std::optional<Lyt>{canvas} : std::nullopt);
    REQUIRE_EQ(ki, op[0] && !op[1], "is_kink_induced_non_operational");
    // single charge distributions
    for (std::uint64_t p = 0; p < m; ++p)
    {
        if (v[p].spec.valid.empty() || (w.base == 2 && v[p].positive)) { continue; }
        const auto&            n = std::next(v[p].spec.valid.begin(), static_cast<long>(c.below(v[p].spec.valid.size())))->first;
        const gm::config       s{&v[p].w, &n};
        bdl_input_iterator<Lyt> it{l, ps.input_bdl_iterator_params};
        it = p;
        charge_distribution_surface<Lyt> cds{*it, sm::sim(w)};
        for (std::size_t i = 0; i < n.size(); ++i) { cds.assign_charge_state(sm::cell<Lyt>(v[p].w.dots[i]), sm::cs(n[i])); }
        for (int r = 0; r < 2; ++r)
        {
            ps.op_condition = r ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
            const bool want = gm::outputs_match(g, s, p) && !(r && gm::has_kinks(g, s, p));
            REQUIRE_EQ(verify_logic_match(cds, ps, g.spec, p, wi, wo) == operational_status::OPERATIONAL, want, "verify_logic_match of " << sm::str(n) << " for input pattern " << p << (r ? " rejecting kinks" : " tolerating kinks"));
        }
    }
    if (op[1]) { c.label("operational"); }
    else if (op[0]) { c.label("operational with kinks"); }
    if (!kinked.empty()) { c.label("kinks"); }
    c.nontrivial(!good[0].empty() && m > 1);
}

PBT("operational-status", 6000, 150000, "the gate works for at least one input pattern")
{
    switch (c.below(3))
    {
        case 0: status<sidb_100_cell_clk_lyt>(c); break;
        case 1: status<sidb_100_cell_clk_lyt_cube>(c); break;
        default: status<sidb_100_cell_clk_lyt_siqad>(c);
    }
}
