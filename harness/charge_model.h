// Reference model of the electrostatics of charged dots.
#pragma once
#include "vx.h"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/traits.hpp>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <unordered_map>
#include <vector>
using namespace fiction;
namespace
{
using SC  = siqad::coord_t;
using L   = sidb_lattice<sidb_100_lattice, cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<SC>>>>;
using CDS = charge_distribution_surface<L>;
[[maybe_unused]] sidb_charge_state sidb_of(int q)
{
    return q < 0 ? sidb_charge_state::NEGATIVE : q > 0 ? sidb_charge_state::POSITIVE : sidb_charge_state::NEUTRAL;
}
[[maybe_unused]] int charge_of(sidb_charge_state s)
{
    return s == sidb_charge_state::NEGATIVE ? -1 : s == sidb_charge_state::POSITIVE ? 1 : s == sidb_charge_state::NEUTRAL ? 0 : 9;
}
[[maybe_unused]] bool near(double a, double b)
{
    return std::abs(a - b) <= 1e-9 * (1.0 + std::abs(b));
}
[[maybe_unused]] L lay(const std::vector<SC>& s)
{
    L l{};
    for (const auto& c : s)
        l.assign_cell_type(c, sidb_technology::cell_type::NORMAL);
    return l;
}
struct model
{
    int             n;
    std::vector<SC> s;  // top to bottom, left to right
    double          v[7][7]{};
    double          ext[7]{};
    double          dv[7]{};
    double          dd = 0;  // among defects
    int             q[7]{};
    double          eps, lam;
    struct def
    {
        SC     c;
        double q, eps, lam;
    };
    std::vector<def> defs;
    static double    row(const SC& c)
    {
        return c.y * 0.768 + c.z * 0.225;
    }
    static double dist(const SC& a, const SC& b)
    {
        const double dx = (a.x - b.x) * 0.384, dy = row(a) - row(b);
        return std::sqrt(dx * dx + dy * dy);
    }
    static double pot(double d, double eps, double lam)
    {
        return d == 0.0 ? 0.0 : 8.987552e9 / eps / (d * 1e-9) * std::exp(-d / lam) * 1.6021766e-19;
    }
    model(std::vector<SC> sites, const sidb_simulation_parameters& p) : n{static_cast<int>(sites.size())}, s{std::move(sites)}, eps{p.epsilon_r}, lam{p.lambda_tf}
    {
        std::sort(s.begin(), s.end(), [](const SC& a, const SC& b) { return row(a) != row(b) ? row(a) < row(b) : a.x < b.x; });
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                v[i][j] = pot(dist(s[i], s[j]), eps, lam);
    }
    void defect(const SC& c, double charge, double e, double l)
    {
        for (int i = 0; i < n; ++i)
            dv[i] += charge * pot(dist(s[i], c), e, l);
        for (const auto& d : defs)
            dd += 0.5 * d.q * charge * (pot(dist(d.c, c), e, l) + pot(dist(d.c, c), d.eps, d.lam));
        defs.push_back({c, charge, e, l});
    }
    double by_defects(int i) const
    {
        return dv[i];
    }
    double internal(int i) const
    {
        double r = dv[i];
        for (int j = 0; j < n; ++j)
            r += v[i][j] * q[j];
        return r;
    }
    // half of every pair of charges, seen from both sides; external potentials in full
    double energy() const
    {
        double r = dd;
        for (int i = 0; i < n; ++i)
            r += q[i] * (ext[i] + 0.5 * internal(i));
        for (const auto& d : defs)
            for (int i = 0; i < n; ++i)
                r += 0.5 * d.q * q[i] * pot(dist(d.c, s[i]), eps, lam);
        return r;
    }
    int count(int charge) const
    {
        int r = 0;
        for (int i = 0; i < n; ++i)
            r += q[i] == charge;
        return r;
    }
    // what an electron gains or loses by hopping from i to j
    double hop(int i, int j) const
    {
        return ext[i] - ext[j] + internal(i) - internal(j) - v[i][j];
    }
    static constexpr double band = 4e-6;  // tolerances of the implementation are not judged
    bool                    surely_unstable() const
    {
        bool r = false;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (q[i] != 1 && q[j] > q[i])
                    r |= hop(i, j) < -band;
        return r;
    }
    bool surely_stable() const
    {
        bool r = true;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (q[i] != 1 && q[j] > q[i])
                    r &= hop(i, j) > -1e-8;
        return r;
    }
    bool surely_invalid(double mu) const
    {
        bool r = surely_unstable();
        for (int i = 0; i < n; ++i)
        {
            const double p = internal(i) + ext[i];
            r |= q[i] < 0 ? p < mu - band : q[i] > 0 ? p > mu - 0.59 + band : bool((p > mu + band) | (p < mu - 0.59 - band));
        }
        return r;
    }
    bool surely_valid(double mu, double slack = 1e-8) const
    {
        bool r = surely_stable();
        for (int i = 0; i < n; ++i)
        {
            const double p = internal(i) + ext[i];
            r &= q[i] < 0 ? p > mu + slack : q[i] > 0 ? p < mu - 0.59 - slack : bool((p < mu - slack) & (p > mu - 0.59 + slack));
        }
        return r;
    }
};
}  // namespace
