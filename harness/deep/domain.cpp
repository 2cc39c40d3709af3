// P38: operational domains, critical temperature domains, domain ratios, and physically valid parameters
#include "gates_common.hpp"

#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain_ratio.hpp>
#include <fiction/algorithms/simulation/sidb/physically_valid_parameters.hpp>
#include <fiction/types.hpp>

#include <queue>

using namespace fiction;
using sm::pos;
using sm::world;

namespace
{
using idx = std::vector<std::size_t>;

struct axis
{
    sweep_parameter     p{};
    double              min{}, max{}, step{};
    std::vector<double> v{};
};

/// the values of an axis: min, min + step, ... up to max
void fill(axis& a)
{
    a.v.clear();
    for (std::size_t i = 0;; ++i)
    {
        const double x = a.min + static_cast<double>(i) * a.step;
        if (x > a.max + 1e-6) { break; }
        a.v.push_back(x);
    }
}
std::vector<axis> gen_axes(pbt::ctx& c, const std::size_t n, const std::size_t points)
{
    std::vector<sweep_parameter> ps{sweep_parameter::EPSILON_R, sweep_parameter::LAMBDA_TF, sweep_parameter::MU_MINUS};
    c.shuffle(ps);
    std::vector<axis> r{};
    for (std::size_t d = 0; d < n; ++d)
    {
        axis a{};
        a.p            = ps[d];
        const auto len = 1 + c.below(points);
        if (a.p == sweep_parameter::MU_MINUS)
        {
            a.step = c.pick(std::vector<double>{0.01, 0.02, 0.03, 0.05});
            a.min  = -0.40 + 0.01 * static_cast<double>(c.below(20));
        }
        else
        {
            a.step = c.pick(std::vector<double>{0.1, 0.2, 0.3, 0.5, 0.7, 1.0});
            a.min  = 0.1 * static_cast<double>(5 + c.below(60));
        }
        // the maximum need not be a multiple of the step away
        a.max = a.min + a.step * (static_cast<double>(len - 1) + 0.25 * static_cast<double>(c.below(4)));
        fill(a);
        r.push_back(a);
    }
    return r;
}
world at(const world& w, const std::vector<axis>& as, const idx& i)
{
    world r = w;
    for (std::size_t d = 0; d < as.size(); ++d)
    {
        const auto x = as[d].v[i[d]];
        switch (as[d].p)
        {
            case sweep_parameter::EPSILON_R: r.eps = x; break;
            case sweep_parameter::LAMBDA_TF: r.lambda = x; break;
            default: r.mu = x;
        }
    }
    return r;
}
std::vector<idx> grid(const std::vector<axis>& as)
{
    std::vector<idx> r{{}};
    for (const auto& a : as)
    {
        std::vector<idx> n{};
        for (const auto& i : r)
        {
            for (std::size_t k = 0; k < a.v.size(); ++k)
            {
                auto j = i;
                j.push_back(k);
                n.push_back(j);
            }
        }
        r = n;
    }
    return r;
}
std::string show(const std::vector<axis>& as)
{
    std::ostringstream s{};
    for (const auto& a : as) { s << ' ' << (a.p == sweep_parameter::EPSILON_R ? "eps" : a.p == sweep_parameter::LAMBDA_TF ? "lambda" : "mu") << " [" << a.min << ", " << a.max << "] by " << a.step; }
    return s.str();
}
std::string show(const idx& i)
{
    std::ostringstream s{};
    s << '(';
    for (std::size_t k = 0; k < i.size(); ++k) { s << (k ? "," : "") << i[k]; }
    s << ')';
    return s.str();
}
std::vector<operational_domain_value_range> ranges(const std::vector<axis>& as)
{
    std::vector<operational_domain_value_range> r{};
    for (const auto& a : as) { r.push_back({.dimension = a.p, .min = a.min, .max = a.max, .step = a.step}); }
    return r;
}
/// the index of a parameter point on the grid
idx index_of(const std::vector<axis>& as, const parameter_point& p)
{
    REQUIRE_EQ(p.get_parameters().size(), as.size(), "dimensions of a parameter point");
    idx r{};
    for (std::size_t d = 0; d < as.size(); ++d)
    {
        std::size_t k = 0;
        while (k < as[d].v.size() && std::abs(as[d].v[k] - p.get_parameters()[d]) > 1e-7) { ++k; }
        REQUIRE_THAT(k < as[d].v.size(), "parameter point " << p.get_parameters()[d] << " in dimension " << d << " is not on the grid");
        r.push_back(k);
    }
    return r;
}
std::vector<idx> neighbours(const std::vector<axis>& as, const idx& i, const bool diagonal)
{
    std::vector<idx> r{{}};
    for (std::size_t d = 0; d < as.size(); ++d)
    {
        std::vector<idx> n{};
        for (const auto& p : r)
        {
            for (int o = -1; o <= 1; ++o)
            {
                if ((o < 0 && i[d] == 0) || (o > 0 && i[d] + 1 >= as[d].v.size())) { continue; }
                auto q = p;
                q.push_back(i[d] + static_cast<std::size_t>(o));
                n.push_back(q);
            }
        }
        r = n;
    }
    std::erase_if(r, [&](const idx& q)
    {
        std::size_t diff = 0;
        for (std::size_t d = 0; d < q.size(); ++d) { diff += q[d] != i[d]; }
        return diff == 0 || (!diagonal && diff > 1);
    });
    return r;
}

struct setup
{
    gm::gate                                  g{};
    world                                     w{};
    std::vector<axis>                         as{};
    std::map<idx, bool>                       truth{};
    std::size_t                               ops{};
};

using L = sidb_100_cell_clk_lyt_siqad;

/// a gate and a sweep, or nothing if some point of the sweep cannot be judged (energies too close to each other)
bool gen_once(pbt::ctx& c, const std::size_t dims, const std::size_t points, const bool kinks, setup& s)
{
    s        = setup{};
    s.w.base = c.below(6) == 0 ? 3 : 2;
    gm::gate_opts o{};
    o.max_permanent   = s.w.base == 3 ? 4 : 7;
    o.only_south_east = c.flip();
    s.g               = gm::gen_gate(c, o);
    sm::gen_params(c, s.w);
    s.as           = gen_axes(c, dims, s.w.base == 3 ? std::min<std::size_t>(points, 4) : points);
    const auto all = grid(s.as);
    const auto status = [&](const idx& i, bool& op)
    {
        op           = true;
        const auto w = at(s.w, s.as, i);
        for (std::uint64_t p = 0; p < (1ull << s.g.num_in()); ++p)
        {
            const auto v = gm::judge(s.g, w, p);
            if (!v.sure) { return false; }
            op = op && v.operational(kinks, s.w.base);
        }
        return true;
    };
    // a specification that holds somewhere on the grid
    for (std::size_t k = 0; k < 4; ++k)
    {
        const auto i = all[c.below(all.size())];
        gm::gen_spec(c, s.g, at(s.w, s.as, i));
        bool op = false;
        if (!status(i, op)) { return false; }
        if (op) { break; }
    }
    for (const auto& i : all)
    {
        bool op = false;
        if (!status(i, op)) { return false; }
        s.truth[i] = op;
        s.ops += op;
    }
    return true;
}
setup gen(pbt::ctx& c, const std::size_t dims, const std::size_t points, const bool kinks)
{
    setup s{};
    bool  found = false;
    for (std::size_t k = 0; k < 8; ++k)
    {
        setup t{};
        try
        {
            if (!gen_once(c, dims, points, kinks, t)) { continue; }
        }
        catch (const pbt::discard&)
        {
            continue;
        }
        found = true;
        s     = t;
        if (s.ops > 0 && s.ops < s.truth.size()) { break; }
    }
    if (!found) { throw pbt::discard{}; }
    c.note(gm::describe(s.g) + " mu " + std::to_string(s.w.mu) + " eps " + std::to_string(s.w.eps) + " lambda " + std::to_string(s.w.lambda) + " base " + std::to_string(s.w.base) + " sweep" + show(s.as) + (kinks ? " rejecting kinks" : ""));
    return s;
}
operational_domain_params params_of(pbt::ctx& c, const setup& s, const bool kinks)
{
    operational_domain_params ps{};
    ps.operational_params.simulation_parameters     = sm::sim(s.w);
    ps.operational_params.input_bdl_iterator_params = gm::iterator_params(s.g);
    ps.operational_params.sim_engine                = c.flip() ? sidb_simulation_engine::QUICKEXACT : sidb_simulation_engine::EXGS;
    ps.operational_params.op_condition              = kinks ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    ps.sweep_dimensions                             = ranges(s.as);
    ps.number_of_threads                            = c.pick(std::vector<std::size_t>{1, 1, 2, 3, 8, 0});
    return ps;
}

template <typename Dom>
std::map<idx, bool> statuses(const setup& s, const Dom& d)
{
    std::map<idx, bool> r{};
    REQUIRE_EQ(d.get_number_of_dimensions(), s.as.size(), "dimensions of the domain");
    for (std::size_t k = 0; k < s.as.size(); ++k) { REQUIRE_THAT(d.get_dimension(k) == s.as[k].p, "dimension " << k << " of the domain"); }
    d.for_each([&](const auto& p, const auto& v)
    {
        const auto i  = index_of(s.as, p);
        const auto op = std::get<0>(v) == operational_status::OPERATIONAL;
        REQUIRE_THAT(r.emplace(i, op).second, "parameter point " << show(i) << " occurs twice");
        REQUIRE_EQ(op, s.truth.at(i), "operational status at " << show(i));
        const auto again = d.contains(p);
        REQUIRE_THAT(again.has_value() && std::get<0>(*again) == std::get<0>(v), "the domain does not contain " << show(i));
    });
    REQUIRE_EQ(d.size(), r.size(), "size of the domain");
    REQUIRE_EQ(d.empty(), r.empty(), "emptiness of the domain");
    return r;
}
void check_stats(const setup& s, const std::map<idx, bool>& r, const operational_domain_stats& st)
{
    std::size_t ops = 0;
    for (const auto& [i, op] : r) { ops += op; }
    REQUIRE_EQ(st.num_total_parameter_points, s.truth.size(), "total number of parameter points");
    REQUIRE_EQ(st.num_evaluated_parameter_combinations, r.size(), "number of evaluated parameter points");
    REQUIRE_EQ(st.num_operational_parameter_combinations, ops, "number of operational parameter points");
    REQUIRE_EQ(st.num_non_operational_parameter_combinations, r.size() - ops, "number of non-operational parameter points");
}
/// islands of operational points (points that touch at a corner belong together)
std::vector<std::set<idx>> islands(const setup& s)
{
    std::vector<std::set<idx>> r{};
    std::set<idx>              seen{};
    for (const auto& [i, op] : s.truth)
    {
        if (!op || seen.count(i)) { continue; }
        std::set<idx>   is{i};
        std::queue<idx> q{};
        q.push(i);
        while (!q.empty())
        {
            const auto p = q.front();
            q.pop();
            for (const auto& n : neighbours(s.as, p, true))
            {
                if (s.truth.at(n) && is.insert(n).second) { q.push(n); }
            }
        }
        seen.insert(is.begin(), is.end());
        r.push_back(is);
    }
    return r;
}
/// the points outside an island that can be reached from beyond the range without stepping diagonally
std::set<idx> outside_of(const setup& s, const std::set<idx>& is)
{
    std::set<idx>   out{};
    std::queue<idx> q{};
    for (const auto& [i, op] : s.truth)
    {
        bool border = false;
        for (std::size_t d = 0; d < i.size(); ++d) { border = border || i[d] == 0 || i[d] + 1 == s.as[d].v.size(); }
        if (border && !is.count(i) && out.insert(i).second) { q.push(i); }
    }
    while (!q.empty())
    {
        const auto p = q.front();
        q.pop();
        for (const auto& n : neighbours(s.as, p, false))
        {
            if (!is.count(n) && out.insert(n).second) { q.push(n); }
        }
    }
    return out;
}
bool touches_outside(const setup& s, const std::set<idx>& out, const idx& i)
{
    for (std::size_t d = 0; d < i.size(); ++d)
    {
        if (i[d] == 0 || i[d] + 1 == s.as[d].v.size()) { return true; }
    }
    for (const auto& n : neighbours(s.as, i, false))
    {
        if (out.count(n)) { return true; }
    }
    return false;
}
void interesting(pbt::ctx& c, const setup& s)
{
    c.nontrivial(s.ops > 0 && s.ops < s.truth.size());
    const auto n = islands(s).size();
    c.label(n == 0 ? "no island" : n == 1 ? "one island" : "several islands");
}
void check_flood(const setup& s, const std::map<idx, bool>& r)
{
    for (const auto& [i, op] : r)
    {
        if (!op) { continue; }
        for (const auto& n : neighbours(s.as, i, true)) { REQUIRE_THAT(r.count(n), "neighbour " << show(n) << " of the operational point " << show(i) << " is missing"); }
    }
}
void check_contour(const setup& s, const std::map<idx, bool>& r)
{
    for (const auto& is : islands(s))
    {
        if (std::none_of(is.begin(), is.end(), [&](const idx& i) { return r.count(i) > 0; })) { continue; }
        const auto out = outside_of(s, is);
        if (out.size() + is.size() != s.truth.size()) { continue; }  // an island with a hole
        for (const auto& i : is)
        {
            if (touches_outside(s, out, i)) { REQUIRE_THAT(r.count(i), "contour point " << show(i) << " of a discovered island is missing"); }
        }
    }
}

enum class algo
{
    GRID,
    RANDOM,
    FLOOD,
    CONTOUR
};
}  // namespace

PBT("operational-domain", 400, 16000, "some parameter points are operational, some are not")
{
    const auto a     = static_cast<algo>(c.below(4));
    const bool kinks = c.below(3) == 0;
    const auto dims  = (a == algo::FLOOD || a == algo::CONTOUR) ? 2 + c.below(5) / 4 : 1 + c.below(3);
    const auto s     = gen(c, dims, dims == 1 ? 30 : dims == 2 ? 12 : 5, kinks);
    const auto ps    = params_of(c, s, kinks);
    const auto l     = gm::build<L>(s.g);
    interesting(c, s);
    operational_domain_stats st{};
    const std::size_t        samples = c.below(4) == 0 ? 200 : c.below(12);
    switch (a)
    {
        case algo::GRID:
        {
            const auto d = operational_domain_grid_search(l, s.g.spec, ps, &st);
            const auto r = statuses(s, d);
            REQUIRE_EQ(r.size(), s.truth.size(), "points visited by the grid search");
            check_stats(s, r, st);
            std::size_t calls = 0;
            for (const auto& [i, op] : r)
            {
                auto p                  = ps.operational_params;
                p.simulation_parameters = sm::sim(at(s.w, s.as, i));
                calls += is_operational(l, s.g.spec, p).second;
            }
            REQUIRE_EQ(st.num_simulator_invocations, calls, "number of simulator invocations");
            break;
        }
        case algo::RANDOM:
        {
            const auto d = operational_domain_random_sampling(l, s.g.spec, samples, ps, &st);
            const auto r = statuses(s, d);
            REQUIRE_THAT(r.size() <= samples && (samples == 0 || !r.empty()), samples << " random samples visit " << r.size() << " points");
            check_stats(s, r, st);
            break;
        }
        case algo::FLOOD:
        {
            const auto d = operational_domain_flood_fill(l, s.g.spec, samples, ps, &st);
            const auto r = statuses(s, d);
            check_stats(s, r, st);
            check_flood(s, r);
            break;
        }
        default:
        {
            const auto d = operational_domain_contour_tracing(l, s.g.spec, samples, ps, &st);
            const auto r = statuses(s, d);
            check_stats(s, r, st);
            check_contour(s, r);
        }
    }
}

PBT("critical-temperature-domain", 100, 4000, "some parameter points are operational, some are not")
{
    const auto a    = static_cast<algo>(c.below(4));
    const auto dims = (a == algo::FLOOD || a == algo::CONTOUR) ? 2 : 1 + c.below(2);
    const auto s    = gen(c, dims, dims == 1 ? 12 : 5, false);
    const auto ps   = params_of(c, s, false);
    const auto l    = gm::build<L>(s.g);
    interesting(c, s);
    operational_domain_stats    st{};
    critical_temperature_domain d{};
    switch (a)
    {
        case algo::GRID: d = critical_temperature_domain_grid_search(l, s.g.spec, ps, &st); break;
        case algo::RANDOM: d = critical_temperature_domain_random_sampling(l, s.g.spec, 10, ps, &st); break;
        case algo::FLOOD: d = critical_temperature_domain_flood_fill(l, s.g.spec, 5, ps, &st); break;
        default: d = critical_temperature_domain_contour_tracing(l, s.g.spec, 5, ps, &st);
    }
    const auto r = statuses(s, d);
    check_stats(s, r, st);
    if (a == algo::GRID) { REQUIRE_EQ(r.size(), s.truth.size(), "points visited by the grid search"); }
    if (a == algo::FLOOD) { check_flood(s, r); }
    if (a == algo::CONTOUR) { check_contour(s, r); }
    double lo = std::numeric_limits<double>::infinity(), hi = 0;
    d.for_each([&](const auto& p, const auto& v)
    {
        const auto i = index_of(s.as, p);
        if (!s.truth.at(i))
        {
            REQUIRE_EQ(std::get<1>(v), 0.0, "critical temperature of the non-operational point " << show(i));
            return;
        }
        critical_temperature_params cp{};
        cp.operational_params                       = ps.operational_params;
        cp.operational_params.simulation_parameters = sm::sim(at(s.w, s.as, i));
        const auto t = critical_temperature_gate_based(l, s.g.spec, cp);
        REQUIRE_THAT(std::abs(t - std::get<1>(v)) < 1e-9, "critical temperature at " << show(i) << ": " << std::get<1>(v) << " instead of " << t);
        lo = std::min(lo, t);
        hi = std::max(hi, t);
    });
    REQUIRE_EQ(d.minimum_ct(), lo, "minimum critical temperature");
    REQUIRE_EQ(d.maximum_ct(), hi, "maximum critical temperature");
}

PBT("domain-ratio", 150, 5000, "the given point is operational and others are not")
{
    const auto s  = gen(c, 2, 10, false);
    const auto ps = params_of(c, s, false);
    const auto l  = gm::build<L>(s.g);
    // the point as a user writes it: with three decimals
    auto       it = s.truth.begin();
    std::advance(it, static_cast<long>(c.below(s.truth.size())));
    std::vector<double> v{};
    for (std::size_t d = 0; d < s.as.size(); ++d) { v.push_back(std::stod(fmt::format("{:.3f}", s.as[d].v[it->first[d]]))); }
    std::size_t n = 0;
    for (const auto& is : islands(s)) { n += is.count(it->first) ? is.size() : 0; }
    c.nontrivial(n > 0 && n < s.truth.size());
    const auto r = operational_domain_ratio(l, s.g.spec, parameter_point{v}, {ps});
    REQUIRE_THAT(std::abs(r - static_cast<double>(n) / static_cast<double>(s.truth.size())) < 1e-12, "ratio around " << show(it->first) << " is " << r << " instead of " << n << "/" << s.truth.size());
}

PBT("invalid-sweeps", 1500, 40000, "always")
{
    c.nontrivial(true);
    gm::gate_opts o{};
    o.max_permanent = 5;
    gm::gate g{};
    for (std::size_t k = 0;; ++k)
    {
        try
        {
            g = gm::gen_gate(c, o);
            break;
        }
        catch (const pbt::discard&)
        {
            if (k == 7) { throw; }
        }
    }
    g.spec.assign(g.num_out(), kitty::dynamic_truth_table(static_cast<unsigned>(g.num_in())));
    const auto                l = gm::build<L>(g);
    auto                      as = gen_axes(c, 1 + c.below(2), 2);
    operational_domain_params ps{};
    ps.operational_params.input_bdl_iterator_params = gm::iterator_params(g);
    ps.number_of_threads                            = 1;
    ps.sweep_dimensions                             = ranges(as);
    bool       bad = false;
    const auto a   = c.below(4);
    switch (c.below(5))
    {
        case 0:
        {
            auto* d = c.pick(std::vector<operational_domain_value_range*>{&ps.sweep_dimensions.front(), &ps.sweep_dimensions.back()});
            d->max  = d->min - d->step;
            bad     = true;
            break;
        }
        case 1:
        {
            auto* d = c.pick(std::vector<operational_domain_value_range*>{&ps.sweep_dimensions.front(), &ps.sweep_dimensions.back()});
            d->step = c.flip() ? 0.0 : -d->step;
            bad     = true;
            break;
        }
        case 2:
        {
            ps.operational_params.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::FILTER_ONLY;
            const bool reject = c.flip();
            ps.operational_params.op_condition = reject ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
            bad = !reject || g.canvas.empty();
            break;
        }
        case 3:
        {
            ps.sweep_dimensions.clear();
            bad = true;
            break;
        }
        default: break;
    }
    bad = bad || (a >= 2 && ps.sweep_dimensions.size() < 2);
    bool thrown = false;
    try
    {
        switch (a)
        {
            case 0: (void)operational_domain_grid_search(l, g.spec, ps); break;
            case 1: (void)operational_domain_random_sampling(l, g.spec, 2, ps); break;
            case 2: (void)operational_domain_flood_fill(l, g.spec, 2, ps); break;
            default: (void)operational_domain_contour_tracing(l, g.spec, 2, ps);
        }
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    REQUIRE_EQ(thrown, bad, "rejection of invalid sweeps by algorithm " << a);
}

// --------------------------------------------------------------------------------------------- physically valid parameters
PBT("physically-valid-parameters", 1500, 40000, "the charge distribution is valid for some parameters but not for all")
{
    world w{};
    w.base = c.below(4) == 0 ? 3 : 2;
    w.dots = sm::gen_dots(c, 1 + c.below(w.base == 3 ? 4 : 7), {10, 5, false});
    sm::gen_params(c, w);
    const auto as  = gen_axes(c, 1 + c.below(3), 6);
    const auto all = grid(as);
    L          l{};
    for (const auto& p : w.dots) { l.assign_cell_type(sm::cell<L>(p), L::cell_type::NORMAL); }
    charge_distribution_surface<L> cds{l, sm::sim(w)};
    sm::adopt_order(w, cds);
    // a charge distribution that is valid at one of the points, or noise
    std::vector<int> n(w.dots.size(), -1);
    if (c.below(4))
    {
        auto x = at(w, as, all[c.below(all.size())]);
        x.freeze();
        const auto sp = sm::brute(x, w.base);
        if (!sp.valid.empty())
        {
            auto it = sp.valid.begin();
            std::advance(it, static_cast<long>(c.below(sp.valid.size())));
            n = it->first;
        }
    }
    else { for (auto& k : n) { k = static_cast<int>(c.below(w.base)) - 1; } }
    c.note(sm::describe(w) + " charges " + sm::str(n) + " sweep" + show(as));
    std::map<idx, std::optional<std::uint64_t>> want{};
    for (const auto& i : all)
    {
        auto x = at(w, as, i);
        x.freeze();
        const auto sp = sm::brute(x, w.base);
        if (!sp.unsure.empty()) { throw pbt::discard{}; }
        std::optional<std::uint64_t> rank{};
        if (const auto it = sp.valid.find(n); it != sp.valid.end())
        {
            std::vector<double> below{};
            for (const auto& [k, e] : sp.valid)
            {
                const auto d = it->second - e;
                if (std::abs(d) > 1e-9 && std::abs(d) < 5e-6) { throw pbt::discard{}; }
                if (d > 1e-9) { below.push_back(e); }
            }
            std::sort(below.begin(), below.end());
            rank = 0;
            for (std::size_t k = 0; k < below.size(); ++k)
            {
                if (k && below[k] - below[k - 1] > 1e-9 && below[k] - below[k - 1] < 5e-6) { throw pbt::discard{}; }
                *rank += k == 0 || below[k] - below[k - 1] > 1e-9;
            }
        }
        want[i] = rank;
    }
    for (std::size_t k = 0; k < n.size(); ++k) { cds.assign_charge_state(sm::cell<L>(w.dots[k]), sm::cs(n[k])); }
    cds.update_after_charge_change();
    operational_domain_params ps{};
    ps.operational_params.simulation_parameters = sm::sim(w);
    ps.operational_params.sim_engine            = c.flip() ? sidb_simulation_engine::QUICKEXACT : sidb_simulation_engine::EXGS;
    ps.sweep_dimensions                         = ranges(as);
    ps.number_of_threads                        = c.pick(std::vector<std::size_t>{1, 2, 4});
    const auto d = physically_valid_parameters(cds, ps);
    std::map<idx, std::uint64_t> got{};
    d.for_each([&](const auto& p, const auto& v) { got[index_of(as, p)] = std::get<0>(v); });
    std::size_t valid = 0;
    for (const auto& [i, r] : want)
    {
        valid += r.has_value();
        REQUIRE_EQ(got.count(i) > 0, r.has_value(), "physical validity at " << show(i));
        if (r) { REQUIRE_EQ(got.at(i), *r, "number of the excited state at " << show(i)); }
    }
    c.nontrivial(valid > 0 && valid < want.size());
}
