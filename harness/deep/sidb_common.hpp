// Independent electrostatic model of SiDB layouts and generators shared by the SiDB simulation harnesses (P31 and later).
#ifndef VERIF_SIDB_COMMON_HPP
#define VERIF_SIDB_COMMON_HPP

#include "pbt.hpp"

#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/types.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace sm
{

/// a dot position in lattice terms: column, dimer row, dot within the dimer (0 = upper, 1 = lower)
struct pos
{
    int  x{}, y{}, z{};
    bool operator<(const pos& o) const { return std::tie(y, z, x) < std::tie(o.y, o.z, o.x); }
    bool operator==(const pos& o) const { return std::tie(x, y, z) == std::tie(o.x, o.y, o.z); }
};

inline std::string str(const pos& p)
{
    return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + "," + std::to_string(p.z) + ")";
}

/// lattice description: 100 or 111 (values from the publications, in nm)
struct lattice
{
    double a, b, cx, cy;
};
inline constexpr lattice L100{0.384, 0.768, 0.0, 0.225};
inline constexpr lattice L111{0.665, 0.384, 0.33255, 0.192};

inline std::pair<double, double> nm(const lattice& l, const pos& p)
{
    return {p.x * l.a + p.z * l.cx, p.y * l.b + p.z * l.cy};
}

inline double dist(const lattice& l, const pos& p, const pos& q)
{
    const auto [px, py] = nm(l, p);
    const auto [qx, qy] = nm(l, q);
    return std::hypot(px - qx, py - qy);
}

inline constexpr double KE = 8.987552e9, QE = 1.6021766e-19;

/// screened Coulomb potential (V) of one elementary charge at distance d (nm)
inline double pot(const double d, const double eps, const double lambda)
{
    return d == 0.0 ? 0.0 : KE / eps / (d * 1e-9) * std::exp(-d / lambda) * QE;
}

struct defect
{
    int    charge;
    double eps, lambda;
};

/// the complete physical situation
struct world
{
    lattice               lat = L100;
    std::vector<pos>      dots;       // in the layout's order
    std::map<pos, defect> defects;    // charged defects that are not at the position of an SiDB
    std::map<pos, double> ext;        // external potentials of SiDBs and defects
    double                mu = -0.32, eps = 5.6, lambda = 5.0;
    unsigned              base = 3;

    [[nodiscard]] double mu_plus() const { return mu - 0.59; }
    [[nodiscard]] double v(const std::size_t i, const std::size_t j) const
    {
        return !vm.empty() ? vm[i][j] : i == j ? 0.0 : pot(dist(lat, dots[i], dots[j]), eps, lambda);
    }
    /// caches the potentials; the world must not change afterwards
    void freeze()
    {
        vm.clear();
        dp.clear();
        std::vector<std::vector<double>> m(dots.size(), std::vector<double>(dots.size()));
        std::vector<double>              d(dots.size());
        for (std::size_t i = 0; i < dots.size(); ++i)
        {
            for (std::size_t j = 0; j < dots.size(); ++j) { m[i][j] = v(i, j); }
            d[i] = defect_pot(i);
        }
        vm = m;
        dp = d;
    }
    std::vector<std::vector<double>> vm{};
    std::vector<double>              dp{};
    [[nodiscard]] double ext_at(const pos& p) const
    {
        const auto it = ext.find(p);
        return it == ext.end() ? 0.0 : it->second;
    }
    /// potential at SiDB i caused by the defects
    [[nodiscard]] double defect_pot(const std::size_t i) const
    {
        if (!dp.empty()) { return dp[i]; }
        double r = 0;
        for (const auto& [p, d] : defects) { r += d.charge * pot(dist(lat, p, dots[i]), d.eps, d.lambda); }
        return r;
    }
    /// potential at SiDB i caused by charges and defects
    [[nodiscard]] double internal(const std::size_t i, const std::vector<int>& n) const
    {
        double r = defect_pot(i);
        for (std::size_t j = 0; j < dots.size(); ++j)
        {
            if (j != i) { r += v(i, j) * n[j]; }
        }
        return r;
    }
    [[nodiscard]] double local(const std::size_t i, const std::vector<int>& n) const { return internal(i, n) + ext_at(dots[i]); }
    [[nodiscard]] double at_defect(const pos& p, const std::vector<int>& n) const
    {
        double r = 0;
        for (const auto& [q, d] : defects)
        {
            if (!(q == p)) { r += d.charge * pot(dist(lat, p, q), d.eps, d.lambda); }
        }
        for (std::size_t j = 0; j < dots.size(); ++j) { r += n[j] * pot(dist(lat, p, dots[j]), eps, lambda); }
        return r;
    }
    [[nodiscard]] double energy(const std::vector<int>& n) const
    {
        double in = 0, ex = 0;
        for (std::size_t i = 0; i < dots.size(); ++i)
        {
            in += internal(i, n) * n[i];
            ex += ext_at(dots[i]) * n[i];
        }
        for (const auto& [p, d] : defects)
        {
            in += at_defect(p, n) * d.charge;
            ex += ext_at(p) * d.charge;
        }
        return ex + 0.5 * in;
    }
    /// 1 = physically valid, 0 = not, -1 = within the tolerance of a threshold
    [[nodiscard]] int validity(const std::vector<int>& n) const
    {
        constexpr double tol = 4e-6;
        bool             unsure = false;
        const auto       need   = [&](const double x)  // demands x > 0
        {
            if (x < -tol) { return false; }
            if (x < tol) { unsure = true; }
            return true;
        };
        std::vector<double> V(dots.size());
        for (std::size_t i = 0; i < dots.size(); ++i) { V[i] = local(i, n); }
        for (std::size_t i = 0; i < dots.size(); ++i)
        {
            const double u = -V[i];  // electron energy shift
            if (n[i] < 0 && !need(-mu - u)) { return 0; }
            if (n[i] > 0 && !need(u + mu_plus())) { return 0; }
            if (n[i] == 0 && (!need(u + mu) || !need(-mu_plus() - u))) { return 0; }
        }
        for (std::size_t i = 0; i < dots.size(); ++i)
        {
            for (std::size_t j = 0; j < dots.size(); ++j)
            {
                if (n[j] <= n[i] || n[i] == 1) { continue; }
                // moving one electron from i to j
                if (!need(V[i] - V[j] - v(i, j))) { return 0; }
            }
        }
        return unsure ? -1 : 1;
    }
};

/// all charge configurations, most significant digit = first SiDB
template <typename Fn>
void for_all_configs(const std::size_t n, const unsigned base, Fn&& fn)
{
    std::uint64_t total = 1;
    for (std::size_t i = 0; i < n; ++i) { total *= base; }
    std::vector<int> c(n, -1);
    for (std::uint64_t k = 0; k < total; ++k)
    {
        std::uint64_t q = k;
        for (std::size_t i = n; i-- > 0;)
        {
            c[i] = static_cast<int>(q % base) - 1;
            q /= base;
        }
        fn(k, c);
    }
}

/// all physically valid configurations with their energies, and those too close to a threshold to tell
struct spectrum
{
    std::map<std::vector<int>, double> valid, unsure;
};
inline spectrum brute(const world& w, const unsigned base)
{
    spectrum r;
    for_all_configs(w.dots.size(), base,
                    [&](std::uint64_t, const std::vector<int>& n)
                    {
                        const int v = w.validity(n);
                        if (v == 1) { r.valid[n] = w.energy(n); }
                        else if (v < 0) { r.unsure[n] = w.energy(n); }
                    });
    return r;
}

inline std::uint64_t index_of(const std::vector<int>& n, const unsigned base)
{
    std::uint64_t r = 0;
    for (const int x : n) { r = r * base + static_cast<std::uint64_t>(x + 1); }
    return r;
}

inline std::string str(const std::vector<int>& n)
{
    std::string s;
    for (const int x : n) { s += x < 0 ? '-' : x > 0 ? '+' : '0'; }
    return s;
}

inline bool close(const double a, const double b, const double rel = 1e-9)
{
    return std::abs(a - b) <= 1e-9 + rel * std::max(std::abs(a), std::abs(b));
}

inline fiction::sidb_charge_state cs(const int n)
{
    return n < 0 ? fiction::sidb_charge_state::NEGATIVE : n > 0 ? fiction::sidb_charge_state::POSITIVE : fiction::sidb_charge_state::NEUTRAL;
}
inline int sign(const fiction::sidb_charge_state s)
{
    return s == fiction::sidb_charge_state::NEGATIVE ? -1 : s == fiction::sidb_charge_state::POSITIVE ? 1 : s == fiction::sidb_charge_state::NEUTRAL ? 0 : 99;
}

// ---------------------------------------------------------------------------------------- coordinates of a layout type
template <typename Lyt>
using cell_t = typename Lyt::cell;

template <typename Lyt>
cell_t<Lyt> cell(const pos& p)
{
    if constexpr (std::is_same_v<cell_t<Lyt>, fiction::siqad::coord_t>) { return cell_t<Lyt>(p.x, p.y, p.z); }
    else { return cell_t<Lyt>(p.x, 2 * p.y + p.z, 0); }
}
template <typename Lyt>
pos position(const cell_t<Lyt>& c)
{
    if constexpr (std::is_same_v<cell_t<Lyt>, fiction::siqad::coord_t>) { return {static_cast<int>(c.x), static_cast<int>(c.y), static_cast<int>(c.z)}; }
    else
    {
        const int y = static_cast<int>(c.y);
        const int z = ((y % 2) + 2) % 2;
        return {static_cast<int>(c.x), (y - z) / 2, z};
    }
}
template <typename Lyt>
constexpr bool is_signed_coord() { return !std::is_same_v<cell_t<Lyt>, fiction::offset::ucoord_t>; }

// ------------------------------------------------------------------------------------------------------ generators
struct gen_opts
{
    int  w = 14, h = 5;
    bool allow_negative = false;
};

inline std::vector<pos> gen_dots(pbt::ctx& c, const std::size_t n, const gen_opts& o = {})
{
    std::set<pos>    seen;
    std::vector<pos> r;
    // a compact cluster, a spread-out one, or mirrored pairs (degenerate energies)
    const auto style = c.below(4);
    const int  w = style == 0 ? std::min(o.w, 6) : o.w, h = style == 0 ? std::min(o.h, 3) : o.h;
    const int  ox = o.allow_negative ? -w / 2 : 0, oy = o.allow_negative ? -h / 2 : 0;
    for (int attempts = 0; r.size() < n && attempts < 200; ++attempts)
    {
        pos p{ox + static_cast<int>(c.below(static_cast<std::uint64_t>(w))), oy + static_cast<int>(c.below(static_cast<std::uint64_t>(h))), static_cast<int>(c.below(2))};
        if (style == 3 && !r.empty() && c.flip())  // a BDL pair partner
        {
            p = r.back();
            p.x += 2;
        }
        if (seen.insert(p).second) { r.push_back(p); }
    }
    return r;
}

inline double round_to(const double x, const double step) { return std::round(x / step) * step; }

/// physical parameters: the library's defaults, measured values, or anything plausible
inline void gen_params(pbt::ctx& c, world& w)
{
    switch (c.below(4))
    {
        case 0: break;
        case 1: w.mu = -0.25; break;
        case 2: w.mu = c.pick(std::vector<double>{-0.32, -0.28, -0.23, -0.1}); w.eps = 5.6; w.lambda = 5.0; break;
        default:
            w.mu     = round_to(c.real(-0.45, -0.05), 0.001);
            w.eps    = round_to(c.real(1.0, 10.0), 0.01);
            w.lambda = round_to(c.real(0.5, 10.0), 0.01);
    }
}

inline fiction::sidb_simulation_parameters sim(const world& w)
{
    return fiction::sidb_simulation_parameters{static_cast<std::uint8_t>(w.base), w.mu, w.eps, w.lambda};
}

/// a charged defect at a position that is not an SiDB
inline std::pair<pos, defect> gen_defect(pbt::ctx& c, const world& w, const gen_opts& o = {})
{
    for (int i = 0; i < 50; ++i)
    {
        const pos p{static_cast<int>(c.below(static_cast<std::uint64_t>(o.w + 6))), static_cast<int>(c.below(static_cast<std::uint64_t>(o.h + 4))), static_cast<int>(c.below(2))};
        if (std::find(w.dots.begin(), w.dots.end(), p) != w.dots.end() || w.defects.count(p)) { continue; }
        const int ch = c.flip() ? -1 : 1;
        return {p, c.flip() ? defect{ch, w.eps, w.lambda} : defect{ch, round_to(c.real(1.0, 12.0), 0.01), round_to(c.real(0.5, 8.0), 0.01)}};
    }
    throw pbt::discard{};
}

template <typename Lyt>
lattice lattice_of()
{
    if constexpr (fiction::is_sidb_lattice_111_v<Lyt>) { return L111; }
    else { return L100; }
}

template <typename Lyt>
Lyt build(const std::vector<pos>& dots)
{
    Lyt l{};
    for (const auto& p : dots) { l.assign_cell_type(cell<Lyt>(p), Lyt::cell_type::NORMAL); }
    return l;
}

/// sets w.dots to the layout's order of SiDBs as reported by the charge distribution surface
template <typename Cds>
void adopt_order(world& w, const Cds& cds)
{
    w.dots.clear();
    for (const auto& x : cds.get_sidb_order()) { w.dots.push_back(position<Cds>(x)); }
}

template <typename Cds>
std::vector<int> charges(const Cds& cds)
{
    std::vector<int> r;
    for (const auto s : cds.get_all_sidb_charges()) { r.push_back(sign(s)); }
    return r;
}

inline std::string describe(const world& w)
{
    std::ostringstream s;
    s << "SiDBs";
    for (const auto& p : w.dots) { s << ' ' << str(p); }
    for (const auto& [p, d] : w.defects) { s << " defect" << str(p) << " charge " << d.charge << " eps " << d.eps << " lambda " << d.lambda; }
    for (const auto& [p, x] : w.ext) { s << " ext" << str(p) << "=" << x; }
    s << " mu " << w.mu << " eps " << w.eps << " lambda " << w.lambda << " base " << w.base;
    return s.str();
}

}  // namespace sm

#endif
