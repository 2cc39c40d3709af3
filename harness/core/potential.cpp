// physical parameters and the inversion of the screened Coulomb potential
#include "pbt.hpp"

#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <fiction/technology/constants.hpp>

#include <cmath>
#include <cstdint>

using namespace fiction;

static sidb_simulation_parameters gen_params(pbt::ctx& c)
{
    if (c.chance(1, 5))
    {
        return sidb_simulation_parameters{};
    }
    const auto   base = static_cast<std::uint8_t>(2 + c.below(2));
    const double mu   = c.real(-0.5, 0.0);
    const double eps  = c.real(1.0, 12.0);
    const double lam  = c.real(1.0, 10.0);
    return sidb_simulation_parameters{base, mu, eps, lam};
}
/// the screened Coulomb potential of one elementary charge (V) at a distance (nm), written from its formula
static double potential(double d, const sidb_simulation_parameters& p)
{
    const double e  = 1.6021766e-19;
    const double ke = 8.987552e9;
    return ke * e / (p.epsilon_r * d * 1e-9) * std::exp(-d / p.lambda_tf);
}

PBT("inversion", 24000, 240000, "a distance of at least ten steps")
{
    const auto   p    = gen_params(c);
    const auto   prec = c.below(4);
    const double step = std::pow(10, -static_cast<double>(prec));
    // choose the distance and derive the potential, so that the search is short
    const double maxd = std::min(40.0, step * 4000);
    const double d    = c.chance(1, 6) ? step * c.unit() : c.real(step, maxd);
    const double v    = potential(d, p);
    c.note("potential ", v, " V (", d, " nm), precision ", prec, ", epsilon ", p.epsilon_r, ", lambda ", p.lambda_tf);
    c.nontrivial(d >= 10 * step);
    const double got = potential_to_distance_conversion(v, p, prec);
    REQUIRE_THAT(std::isfinite(got) && got >= step * (1 - 1e-9), "the distance is at least one step: " << got);
    const double k = got / step;
    REQUIRE_THAT(std::abs(k - std::round(k)) < 1e-6 * std::max(1.0, k), "the distance is a multiple of the step: " << got);
    const double slack = 1e-9;
    REQUIRE_THAT(potential(got, p) <= v * (1 + slack), "the potential at " << got << " nm is " << potential(got, p) << ", above " << v);
    if (got > step * 1.5)
    {
        REQUIRE_THAT(potential(got - step, p) >= v * (1 - slack),
                     "one step closer the potential is already " << potential(got - step, p) << ", not above " << v);
    }
}
PBT("monotone", 8000, 80000, "two different potentials")
{
    const auto   p    = gen_params(c);
    const auto   prec = c.below(3);
    const double step = std::pow(10, -static_cast<double>(prec));
    const double hi   = std::min(30.0, step * 3000);
    const double d1   = c.real(step, hi), d2 = c.real(step, hi);
    const double v1 = potential(d1, p), v2 = potential(d2, p);
    c.note(v1, " and ", v2, " V");
    c.nontrivial(v1 != v2);
    const auto r1 = potential_to_distance_conversion(v1, p, prec), r2 = potential_to_distance_conversion(v2, p, prec);
    REQUIRE_THAT(!(v1 < v2) || r1 >= r2, "a weaker potential lies no closer: " << r1 << " and " << r2);
    // stronger screening or permittivity brings the distance no further away
    auto q = p;
    q.epsilon_r *= 1.0 + c.unit();
    REQUIRE_THAT(potential_to_distance_conversion(v1, q, prec) <= r1, "a larger permittivity weakens the potential");
    q           = p;
    q.lambda_tf = p.lambda_tf * (0.5 + c.unit() / 2);
    REQUIRE_THAT(potential_to_distance_conversion(v1, q, prec) <= r1, "a shorter screening length weakens the potential");
    // refinement: a finer grid gives a distance within one coarse step
    if (prec < 2)
    {
        const auto fine = potential_to_distance_conversion(v1, p, prec + 1);
        REQUIRE_THAT(fine <= r1 + step * 1e-6 && fine > r1 - step * 1.000001, "the finer result " << fine << " lies within one step of " << r1);
    }
}
PBT("defaults", 12000, 120000, "a distance of at least ten steps")
{
    const sidb_simulation_parameters p{};
    const double                     d = c.real(0.01, 20.0);
    const double                     v = potential(d, p);
    c.note(v);
    c.nontrivial(d > 0.1);
    REQUIRE_EQ(potential_to_distance_conversion(v), potential_to_distance_conversion(v, sidb_simulation_parameters{3, -0.32, 5.6, 5.0}, 2),
               "the default arguments");
}
PBT("parameters", 200000, 2000000, "parameters other than the defaults")
{
    const auto   base = static_cast<std::uint8_t>(2 + c.below(2));
    const double mu = c.real(-1, 1), eps = c.real(0.1, 20.0), lam = c.real(0.1, 20.0);
    c.note(static_cast<int>(base), " ", mu, " ", eps, " ", lam);
    c.nontrivial();
    sidb_simulation_parameters p{base, mu, eps, lam};
    REQUIRE_EQ(p.base, base, "base");
    REQUIRE_EQ(p.mu_minus, mu, "mu");
    REQUIRE_EQ(p.epsilon_r, eps, "permittivity");
    REQUIRE_EQ(p.lambda_tf, lam, "screening length");
    REQUIRE_EQ(p.mu_plus(), mu - 0.59, "the (+/0) transition lies 0.59 eV below the (0/-) transition");
    REQUIRE_EQ(p.k(), constants::physical::K_E / eps, "the Coulomb constant over the permittivity");
    // later changes are followed
    p.mu_minus  = -mu;
    p.epsilon_r = eps * 2;
    REQUIRE_EQ(p.mu_plus(), -mu - 0.59, "after a change of mu");
    REQUIRE_EQ(p.k(), constants::physical::K_E / (eps * 2), "after a change of the permittivity");
    const sidb_simulation_parameters d{};
    REQUIRE_THAT(d.base == 3 && d.mu_minus == -0.32 && d.epsilon_r == 5.6 && d.lambda_tf == 5.0, "defaults");
    static_assert(constants::ERROR_MARGIN == 1e-6);
    REQUIRE_THAT(std::abs(constants::physical::K_E - 1.0 / (4 * 3.14159265358979 * constants::physical::EPSILON)) < 1e-5 * constants::physical::K_E,
                 "Coulomb's constant is 1 / (4 pi epsilon_0)");
    REQUIRE_THAT(std::abs(constants::PI - std::acos(-1.0)) < 1e-10, "pi");
    REQUIRE_THAT(constants::physical::EV_TO_JOULE == constants::physical::ELEMENTARY_CHARGE, "an electron volt");
}
