// Charge distribution surfaces: electrostatics, validity, indices, defects, copies.
#include "charge_model.h"
namespace
{
constexpr int NP = 6;
const int     SP[NP][3] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {2, 0, 1}, {4, 1, 0}, {10, 3, 1}};
SC sp(int i)
{
    return SC{SP[i][0], SP[i][1], SP[i][2]};
}
// any set of up to most sites
std::vector<SC> choose(int least, int most)
{
    std::vector<SC> r;
    const auto      m = vx_concretize(vx_range("sites", 0, (1u << NP) - 1));
    for (int i = 0; i < NP; ++i)
        if ((m >> i) & 1u)
            r.push_back(sp(i));
    vx_assume(static_cast<int>(r.size()) >= least && static_cast<int>(r.size()) <= most);
    return r;
}
sidb_simulation_parameters params(std::uint8_t base, double mu)
{
    const auto m = vx_concretize(vx_range("material", 0, 1));
    return m == 0 ? sidb_simulation_parameters{base, mu} : sidb_simulation_parameters{base, mu, 4.1, 1.8};
}
const char* CN[4] = {"c0", "c1", "c2", "c3"};
const char* EN[4] = {"e0", "e1", "e2", "e3"};
}  // namespace
VX_ENTRY(cds_physics)
{
    // potentials and energies of any distribution of charges
    const auto s = choose(1, static_cast<int>(VX_B(2, 3)));
    const auto p = params(3, -0.32);
    model      m{s, p};
    L          l = lay(s);
    CDS        c{l, p};
    std::unordered_map<SC, double> ext;
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i]       = static_cast<int>(vx_concretize(vx_range(CN[i], 0, 2))) - 1;
        const auto e = vx_concretize(vx_range(EN[i], 0, 2));
        m.ext[i]     = e == 0 ? 0.0 : e == 1 ? 0.05 : -0.3;
        if (e != 0)
            ext[m.s[i]] = m.ext[i];
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    c.assign_local_external_potential(ext);
    const auto d = vx_concretize(vx_range("defects", 0, 2));
    if (d >= 1)
    {
        c.add_sidb_defect_to_potential_landscape(SC{3, 0, 0}, sidb_defect{sidb_defect_type::SI_VACANCY, -1, 9.7, 2.1});
        m.defect(SC{3, 0, 0}, -1, 9.7, 2.1);
    }
    if (d >= 2)
    {
        c.add_sidb_defect_to_potential_landscape(SC{7, 2, 1}, sidb_defect{sidb_defect_type::ARSENIC, 2, 5.6, 5.0});
        m.defect(SC{7, 2, 1}, 2, 5.6, 5.0);
    }
    c.update_after_charge_change();
    for (int i = 0; i < m.n; ++i)
    {
        const auto ix = c.cell_to_index(m.s[i]);
        vx_check(ix == i && c.index_to_cell(static_cast<std::uint64_t>(i)) == m.s[i], "dots are ordered by position");
        vx_check(near(*c.get_local_internal_potential(m.s[i]), m.internal(i)), "internal potentials sum up the screened Coulomb potentials");
        vx_check(near(*c.get_local_external_potential(m.s[i]), m.ext[i]), "external potentials as assigned");
        vx_check(near(*c.get_local_potential(m.s[i]), m.internal(i) + m.ext[i]), "local potentials are internal plus external ones");
        vx_check(near(*c.get_local_potential_by_index(static_cast<std::uint64_t>(i)), m.internal(i) + m.ext[i]), "local potentials are internal plus external ones");
        vx_check(near(*c.get_local_potential_caused_by_defects(m.s[i]), m.by_defects(i)), "potentials of defects");
        for (int j = 0; j < m.n; ++j)
        {
            vx_check(near(c.get_nm_distance_between_sidbs(m.s[i], m.s[j]), m.dist(m.s[i], m.s[j])), "distances in nanometers");
            vx_check(near(c.get_chargeless_potential_between_sidbs(m.s[i], m.s[j]), m.v[i][j]), "potentials between dots");
            vx_check(near(c.calculate_chargeless_potential_between_sidbs(m.s[i], m.s[j]), m.v[i][j]), "potentials between dots");
            vx_check(near(c.get_potential_between_sidbs(m.s[i], m.s[j]), m.v[i][j] * m.q[j]), "potentials between charges");
        }
    }
    vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "the energy is that of all charges in all potentials");
    vx_check(static_cast<int>(c.num_negative_sidbs()) == m.count(-1) && static_cast<int>(c.num_neutral_sidbs()) == m.count(0) && static_cast<int>(c.num_positive_sidbs()) == m.count(1), "numbers of charges");
    for (int q = -1; q <= 1; ++q)
        vx_check(c.charge_exists(sidb_of(q)) == (m.count(q) > 0), "charges exist");
    // removing the defects and potentials restores the bare layout
    if (d >= 1)
        c.erase_defect(SC{3, 0, 0});
    if (d >= 2)
        c.erase_defect(SC{7, 2, 1});
    c.reset_local_external_potentials();
    c.update_after_charge_change();
    model b{s, p};
    for (int i = 0; i < m.n; ++i)
        b.q[i] = m.q[i];
    for (int i = 0; i < m.n; ++i)
        vx_check(near(*c.get_local_potential(m.s[i]), b.internal(i)), "removing defects and potentials restores the bare layout");
    vx_check(near(c.get_electrostatic_potential_energy(), b.energy()), "removing defects and potentials restores the bare layout");
}
VX_ENTRY(cds_valid)
{
    // validity is population stability plus configuration stability
    const auto   s  = choose(1, static_cast<int>(VX_B(2, 3)));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    const auto p = params(3, mu);
    model      m{s, p};
    L          l = lay(s);
    CDS        c{l, p};
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = static_cast<int>(vx_concretize(vx_range(CN[i], 0, 2))) - 1;
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    std::unordered_map<SC, double> ext;
    for (int i = 0; i < m.n; ++i)
    {
        const auto e = vx_concretize(vx_range(EN[i], 0, static_cast<unsigned>(i == 0 ? VX_B(1, 2) : 2)));
        m.ext[i]     = e == 0 ? 0.0 : e == 1 ? 0.0521 : -0.343;
        if (e != 0)
            ext[m.s[i]] = m.ext[i];
    }
    c.assign_local_external_potential(ext);
    c.update_after_charge_change();
    const bool v = c.is_physically_valid();
    vx_check(!v || !m.surely_invalid(mu), "valid distributions are stable");
    vx_check(v || !m.surely_valid(mu), "stable distributions are valid");
    vx_check(c.is_configuration_stable() ? !m.surely_unstable() : !m.surely_stable(), "a configuration is stable if no electron gains energy by hopping");
}
VX_ENTRY(cds_external_symbolic)
{
    // the same for any external potential
    const std::vector<SC> s{sp(0), sp(static_cast<int>(vx_concretize(vx_range("second", 1, NP - 1))))};
    const double          e = vx_f64("e");
    vx_assume(e >= -1.0 && e <= 1.0);
    const sidb_simulation_parameters p{3, -0.28};
    model                            m{s, p};
    L                                l = lay(s);
    CDS                              c{l, p};
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = static_cast<int>(vx_concretize(vx_range(CN[i], 0, 2))) - 1;
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    const auto at = vx_concretize(vx_range("at", 0, 2));
    if (at == 2)
    {
        c.assign_global_external_potential(e);
        m.ext[0] = m.ext[1] = e;
    }
    else
    {
        c.assign_local_external_potential({{m.s[at], e}});
        m.ext[at] = e;
    }
    c.update_after_charge_change();
    const bool v = c.is_physically_valid();
    vx_check(!v || !m.surely_invalid(-0.28), "valid distributions are stable");
    vx_check(v || !m.surely_valid(-0.28), "stable distributions are valid");
}
namespace
{
// dots far apart from each other
std::vector<SC> spread(int n)
{
    std::vector<SC> r;
    for (int i = 0; i < n; ++i)
        r.push_back(SC{5 * i, (i * 3) % 4, i % 2});
    return r;
}
std::uint64_t power(std::uint64_t b, int n)
{
    std::uint64_t r = 1;
    while (n-- > 0)
        r *= b;
    return r;
}
// the digits of an index are the charges of the dots in order, except for the dependent one
bool digits(const CDS& c, const model& m, std::uint64_t ix, int base, int skip)
{
    bool ok = true;
    for (int i = m.n; i-- > 0;)
        if (i != skip)
        {
            ok &= charge_of(c.get_charge_state(m.s[i])) == static_cast<int>(ix % static_cast<std::uint64_t>(base)) - 1;
            ix /= static_cast<std::uint64_t>(base);
        }
    return ok & (ix == 0);
}
bool consistent(const CDS& c, model& m)
{
    for (int i = 0; i < m.n; ++i)
        m.q[i] = charge_of(c.get_charge_state(m.s[i]));
    bool ok = true;
    for (int i = 0; i < m.n; ++i)
        ok &= near(*c.get_local_internal_potential(m.s[i]), m.internal(i));
    return ok;
}
}  // namespace
VX_ENTRY(cds_index)
{
    // indices number the distributions of charges
    const int  n    = static_cast<int>(vx_concretize(vx_range("n", 1, VX_B(4, 5))));
    const auto base = static_cast<std::uint8_t>(vx_concretize(vx_range("base", 2, 3)));
    model      m{spread(n), sidb_simulation_parameters{base}};
    L          l = lay(m.s);
    CDS        c{l, sidb_simulation_parameters{base}};
    const int  dep = static_cast<int>(vx_concretize(vx_range("dependent", 0, static_cast<unsigned>(n)))) - 1;
    vx_assume(dep < 0 || n > 1);
    if (dep >= 0)
        c.assign_dependent_cell(m.s[dep]);
    const auto max = power(base, dep >= 0 ? n - 1 : n) - 1;
    vx_check(c.get_max_charge_index() == max, "the largest index is that of the last distribution");
    const auto ix = vx_concretize(vx_range("ix", 0, max));
    c.assign_charge_index(ix);
    vx_check(c.get_charge_index_and_base().first == ix && c.get_charge_index_and_base().second == base, "the index is the one assigned");
    vx_check(digits(c, m, ix, base, dep), "an index denotes the charges that are its digits");
    c.charge_distribution_to_index();
    vx_check(c.get_charge_index_and_base().first == ix, "index -> distribution -> index round trip");
    if (ix < max)
    {
        c.increase_charge_index_by_one();
        vx_check(c.get_charge_index_and_base().first == ix + 1, "increasing the index leads to the next distribution");
        vx_check(digits(c, m, ix + 1, base, dep), "increasing the index leads to the next distribution");
        vx_check(consistent(c, m), "potentials follow the charges");
        vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies follow the charges");
    }
    else
    {
        c.increase_charge_index_by_one();
        vx_check(c.get_charge_index_and_base().first == max, "the last index is not exceeded");
    }
    // assigning states one by one
    const int  k = static_cast<int>(vx_concretize(vx_range("k", 0, static_cast<unsigned>(n - 1))));
    const auto q = static_cast<int>(vx_concretize(vx_range("q", 0, static_cast<unsigned>(base - 1)))) - 1;
    const bool by_index = vx_concretize(vx_range("by_index", 0, 1)) != 0;
    if (by_index)
        c.assign_charge_state_by_index(static_cast<std::uint64_t>(k), sidb_of(q));
    else
        c.assign_charge_state(m.s[k], sidb_of(q));
    vx_check(charge_of(c.get_charge_state(m.s[k])) == q && charge_of(c.get_charge_state_by_index(static_cast<std::uint64_t>(k))) == q, "charges as assigned");
    vx_check(digits(c, m, c.get_charge_index_and_base().first, base, dep), "indices follow the charges");
    c.charge_distribution_to_index_general();
    vx_check(digits(c, m, c.get_charge_index_and_base().first, base, -1), "general indices cover all dots");
    c.assign_all_charge_states(sidb_of(q));
    for (int i = 0; i < n; ++i)
        vx_check(charge_of(c.get_charge_state(m.s[i])) == q, "all charges as assigned");
    vx_check(c.get_charge_state(SC{99, 9, 0}) == sidb_charge_state::NONE && c.cell_to_index(SC{99, 9, 0}) == -1, "positions without dots have no charge");
}
VX_ENTRY(cds_dependent)
{
    // the dependent dot takes the charge that its potential calls for
    const auto   s  = choose(2, static_cast<int>(VX_B(2, 3)));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    const auto base = static_cast<std::uint8_t>(vx_concretize(vx_range("base", 2, 3)));
    const auto p    = params(base, mu);
    model      m{s, p};
    L          l = lay(s);
    CDS        c{l, p};
    const int  dep = static_cast<int>(vx_concretize(vx_range("dependent", 0, static_cast<unsigned>(m.n - 1))));
    const auto e   = vx_concretize(vx_range("e0", 0, 1));
    if (e == 1)
    {
        c.assign_local_external_potential({{m.s[0], -0.27}});
        m.ext[0] = -0.27;
    }
    c.assign_dependent_cell(m.s[dep]);
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = static_cast<int>(vx_concretize(vx_range(CN[i], 0, static_cast<unsigned>(base - 1)))) - 1;
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    c.update_after_charge_change(dependent_cell_mode::VARIABLE);
    for (int i = 0; i < m.n; ++i)
        if (i != dep)
            vx_check(charge_of(c.get_charge_state(m.s[i])) == m.q[i], "other dots keep their charges");
    const int    q = charge_of(c.get_charge_state(m.s[dep]));
    const double v = m.internal(dep) + m.ext[dep];
    vx_check(!(v > mu + 1e-8) || q == -1, "the dependent dot is negative if its potential is high");
    vx_check(!((v < mu - model::band) & (v > mu - 0.59 + model::band)) || q == 0, "the dependent dot is neutral in between");
    vx_check(base == 2 || !(v < mu - 0.59 - model::band) || q == 1, "the dependent dot is positive if its potential is low");
    vx_check(consistent(c, m), "potentials follow the charges");
    vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies follow the charges");
    const bool ok = c.is_physically_valid();
    vx_check(!ok || !m.surely_invalid(mu), "valid distributions are stable");
    vx_check(ok || !m.surely_valid(mu), "stable distributions are valid");
}
VX_ENTRY(cds_gray)
{
    // following a Gray code keeps potentials up to date
    const int    n  = static_cast<int>(vx_concretize(vx_range("n", 2, VX_B(3, 4))));
    const auto   sp = vx_concretize(vx_range("close", 0, 1));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -1.5 && mu <= 0.5);
    const sidb_simulation_parameters p{2, mu};
    std::vector<SC>                  s;
    for (int i = 0; i < n; ++i)
        s.push_back(sp == 0 ? SC{5 * i, (i * 3) % 4, i % 2} : SC{i, 0, i % 2});
    model     m{s, p};
    L         l = lay(s);
    CDS       c{l, p};
    const int dep = static_cast<int>(vx_concretize(vx_range("dependent", 0, static_cast<unsigned>(n - 1))));
    c.assign_all_charge_states(sidb_charge_state::NEUTRAL);
    c.assign_dependent_cell(m.s[dep]);
    c.update_after_charge_change(dependent_cell_mode::VARIABLE);
    std::uint64_t prev = 0;
    for (std::uint64_t k = 0; k < (std::uint64_t{1} << (n - 1)); ++k)
    {
        const auto code = k ^ (k >> 1);
        c.assign_charge_index_by_gray_code(code, prev, dependent_cell_mode::VARIABLE, energy_calculation::UPDATE_ENERGY, charge_distribution_history::CONSIDER);
        prev  = code;
        bool ok = true;
        for (int i = 0, b = 0; i < n; ++i)
            if (i != dep)
                ok &= charge_of(c.get_charge_state(m.s[i])) == -static_cast<int>((code >> b++) & 1u);
        vx_check(ok, "the bits of a Gray code are the charges");
        vx_check(consistent(c, m), "potentials follow the charges");
        vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies follow the charges");
        const bool v = c.is_physically_valid();
        vx_check(!v || !m.surely_invalid(mu), "valid distributions are stable");
        vx_check(v || !m.surely_valid(mu), "stable distributions are valid");
    }
}
VX_ENTRY(cds_edit)
{
    // defects, potentials and parameters may come and go in any order
    const auto  s = std::vector<SC>{sp(0), sp(3), sp(5)};
    const auto  p = sidb_simulation_parameters{3, -0.32};
    model       m{s, p};
    L           l = lay(s);
    CDS         c{l, p};
    const SC    at[3] = {SC{3, 0, 0}, SC{7, 2, 1}, sp(3)};
    const struct
    {
        int    q;
        double e, la;
    } kinds[3] = {{-1, 9.7, 2.1}, {2, 5.6, 5.0}, {0, 5.6, 5.0}};
    int present[3] = {-1, -1, -1};
    int q[3]       = {-1, -1, -1};
    int mat        = 0;
    const char* on[3] = {"op0", "op1", "op2"};
    const char* an[3] = {"a0", "a1", "a2"};
    const char* kn[3] = {"k0", "k1", "k2"};
    double      ext[3]{};
    for (int o = 0; o < static_cast<int>(VX_B(2, 3)); ++o)
    {
        const auto op = vx_concretize(vx_range(on[o], 0, 6));
        const int  a = static_cast<int>(vx_concretize(vx_range(an[o], 0, 2))), k = static_cast<int>(vx_concretize(vx_range(kn[o], 0, 2)));
        switch (op)
        {
            case 0:
                c.add_sidb_defect_to_potential_landscape(at[a], sidb_defect{sidb_defect_type::UNKNOWN, kinds[k].q, kinds[k].e, kinds[k].la});
                if (a != 2 && kinds[k].q != 0)  // not on dots, only charged ones
                    present[a] = k;
                break;
            case 1:
                c.erase_defect(at[a]);
                present[a] = -1;
                break;
            case 2:
                c.assign_charge_state(m.s[a], sidb_of(k - 1));
                q[a] = k - 1;
                break;
            case 3:
                c.assign_local_external_potential({{m.s[a], 0.1 * (k - 1)}, {SC{50, 50, 0}, 0.7}});
                ext[a] += 0.1 * (k - 1);
                break;
            case 4:
                c.assign_global_external_potential(0.2 * (k - 1));
                for (auto& x : ext)
                    x += 0.2 * (k - 1);
                break;
            case 5:
                c.reset_local_external_potentials();
                for (auto& x : ext)
                    x = 0;
                break;
            default:
                mat = k;
                c.assign_physical_parameters(sidb_simulation_parameters{3, -0.32, 5.6 - 0.7 * k, 5.0 + k});
        }
    }
    c.update_after_charge_change();
    model r{s, sidb_simulation_parameters{3, -0.32, 5.6 - 0.7 * mat, 5.0 + mat}};
    for (int i = 0; i < 3; ++i)
    {
        r.q[i]   = q[i];
        r.ext[i] = ext[i];
        if (present[i] >= 0)
            r.defect(at[i], kinds[present[i]].q, kinds[present[i]].e, kinds[present[i]].la);
    }
    for (int i = 0; i < 3; ++i)
    {
        vx_check(charge_of(c.get_charge_state(r.s[i])) == q[i], "charges as assigned");
        vx_check(near(*c.get_local_internal_potential(r.s[i]), r.internal(i)), "potentials are those of the charges and defects present");
        vx_check(near(*c.get_local_external_potential(r.s[i]), ext[i]), "external potentials add up");
    }
    vx_check(near(c.get_electrostatic_potential_energy(), r.energy()), "energies are those of the charges and defects present");
    const bool v = c.is_physically_valid();
    vx_check(!v || !r.surely_invalid(-0.32), "valid distributions are stable");
    vx_check(v || !r.surely_valid(-0.32), "stable distributions are valid");
    vx_check(c.get_defects().size() == static_cast<std::size_t>((present[0] >= 0) + (present[1] >= 0)), "the defects present are listed");
}
VX_ENTRY(cds_copies)
{
    // copies are equal and independent
    const auto n = static_cast<int>(vx_concretize(vx_range("n", 1, 3)));
    const auto k = static_cast<int>(vx_concretize(vx_range("other", 0, 2)));
    L          l = lay(spread(n)), e = lay({SC{1, 1, 0}, SC{8, 8, 1}});
    CDS        a{l, sidb_simulation_parameters{2, -0.25}};
    model      m{spread(n), sidb_simulation_parameters{2, -0.25}};
    for (int i = 0; i < n; ++i)
    {
        m.q[i] = static_cast<int>(vx_concretize(vx_range(CN[i], 0, 2))) - 1;
        a.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    a.update_after_charge_change();
    CDS b = k == 0 ? CDS{a} : k == 1 ? a.clone() : CDS{e, sidb_simulation_parameters{3, -0.4}};
    if (k == 2)
        b = a;
    vx_check(b.num_cells() == static_cast<std::uint64_t>(n), "a copy has the dots of the original");
    std::uint64_t seen = 0;
    b.foreach_cell([&](const auto& c) { seen += std::find(m.s.begin(), m.s.end(), c) != m.s.end(); });
    vx_check(seen == static_cast<std::uint64_t>(n), "a copy has the dots of the original");
    vx_check(b.num_negative_sidbs() == a.num_negative_sidbs() && b.num_positive_sidbs() == a.num_positive_sidbs() && b.num_neutral_sidbs() == a.num_neutral_sidbs(), "a copy has the charges of the original");
    vx_check(b.get_electrostatic_potential_energy() == a.get_electrostatic_potential_energy() && b.is_physically_valid() == a.is_physically_valid(), "a copy has the energy of the original");
    vx_check(b.get_simulation_params().base == 2 && b.get_simulation_params().mu_minus == -0.25, "a copy has the parameters of the original");
    vx_check(b.get_charge_index_and_base() == a.get_charge_index_and_base(), "a copy has the index of the original");
    for (int i = 0; i < n; ++i)
        vx_check(charge_of(b.get_charge_state(m.s[i])) == m.q[i], "a copy has the charges of the original");
    const auto en = a.get_electrostatic_potential_energy();
    b.assign_charge_state(m.s[0], sidb_of(m.q[0] == 0 ? 1 : 0));
    b.assign_global_external_potential(0.5);
    b.update_after_charge_change();
    vx_check(charge_of(a.get_charge_state(m.s[0])) == m.q[0] && a.get_electrostatic_potential_energy() == en && *a.get_local_external_potential(m.s[0]) == 0.0, "changing a copy leaves the original alone");
    if (k == 1)
    {
        b.assign_cell_type(SC{40, 4, 0}, sidb_technology::cell_type::NORMAL);
        vx_check(a.num_cells() == static_cast<std::uint64_t>(n) && b.num_cells() == static_cast<std::uint64_t>(n) + 1, "changing a clone leaves the original alone");
        vx_check(static_cast<int>(b.num_negative_sidbs()) == n + 1, "adding a dot starts over with negative charges");
    }
}
VX_ENTRY(cds_defective)
{
    // surfaces with defects
    using D  = sidb_defect_surface<L>;
    const auto s = choose(1, 2);
    D          l{lay(s)};
    const auto p = sidb_simulation_parameters{3, -0.32};
    model      m{s, p};
    const auto k = vx_concretize(vx_range("defects", 0, 3));
    if ((k & 1u) != 0)
    {
        l.assign_sidb_defect(SC{3, 0, 0}, sidb_defect{sidb_defect_type::SI_VACANCY, -1, 9.7, 2.1});
        m.defect(SC{3, 0, 0}, -1, 9.7, 2.1);
    }
    if ((k & 2u) != 0)
    {
        l.assign_sidb_defect(SC{7, 2, 1}, sidb_defect{sidb_defect_type::ARSENIC, 1, 9.1, 3.0});
        m.defect(SC{7, 2, 1}, 1, 9.1, 3.0);
    }
    l.assign_sidb_defect(SC{20, 2, 1}, sidb_defect{sidb_defect_type::SINGLE_DIHYDRIDE});
    charge_distribution_surface<D> c{l, p};
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = static_cast<int>(vx_concretize(vx_range(CN[i], 0, 2))) - 1;
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    c.update_after_charge_change();
    for (int i = 0; i < m.n; ++i)
    {
        vx_check(near(*c.get_local_potential(m.s[i]), m.internal(i)), "potentials include those of all charged defects");
        vx_check(near(*c.get_local_potential_caused_by_defects(m.s[i]), m.by_defects(i)), "potentials of defects");
    }
    vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies include charged defects");
    const bool v = c.is_physically_valid();
    vx_check(!v || !m.surely_invalid(-0.32), "valid distributions are stable");
    vx_check(v || !m.surely_valid(-0.32), "stable distributions are valid");
}
VX_ENTRY(cds_candidates)
{
    // the dots that may be positive are those that are at the lowest potentials of all
    const auto   s  = choose(2, static_cast<int>(VX_B(3, 4)));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    const auto p = params(3, mu);
    model      m{s, p};
    L          l = lay(s);
    CDS        c{l, p};
    const auto e = vx_concretize(vx_range("external", 0, 2));
    if (e > 0)
    {
        c.assign_local_external_potential({{m.s[e - 1], -0.27}});
        m.ext[e - 1] = -0.27;
    }
    const int dep = static_cast<int>(vx_concretize(vx_range("dependent", 0, static_cast<unsigned>(m.n)))) - 1;
    if (dep >= 0)
        c.assign_dependent_cell(m.s[dep]);
    for (int i = 0; i < m.n; ++i)
        m.q[i] = -1;
    c.assign_all_charge_states(sidb_charge_state::NEGATIVE);
    const bool required = c.is_three_state_simulation_required();
    const auto pc       = c.get_positive_candidates();
    std::int64_t three = 0, two = 0;
    bool         members = true, order = true;
    for (int i = 0; i < m.n; ++i)
    {
        const double v  = m.internal(i) + m.ext[i];
        const bool   is = std::find(pc.begin(), pc.end(), m.s[i]) != pc.end();
        members &= i == dep ? !is : bool((is | !(v < mu - 0.59 - model::band)) & (!is | !(v > mu - 0.59 + model::band)));
        order &= c.three_state_cell_to_index(m.s[i]) == (is ? three : -1) && c.two_state_cell_to_index(m.s[i]) == (is || i == dep ? -1 : two);
        if (is)
            order &= c.index_to_three_state_cell(static_cast<std::uint64_t>(three)) == m.s[i];
        else if (i != dep)
            order &= c.index_to_two_state_cell(static_cast<std::uint64_t>(two)) == m.s[i];
        (is ? three : two) += is || i != dep;
    }
    vx_check(members, "candidates are the dots, other than the dependent one, whose potentials allow for positive charges");
    vx_check(order && three == static_cast<std::int64_t>(pc.size()), "candidates and other dots are numbered in order");
    vx_check(required == !pc.empty(), "three states are required if there are candidates");
    if (required)
        vx_check(c.get_max_charge_index_sub_layout() + 1 == power(3, static_cast<int>(three)), "candidates have three states each");
    if (required && dep >= 0)
        vx_check(c.get_max_charge_index() + 1 == power(2, static_cast<int>(two)), "other dots have two states each");
}
VX_ENTRY(cds_add)
{
    // adding a dot keeps the order of dots and their charges
    const auto s = choose(1, static_cast<int>(VX_B(3, 4)));
    model      m{s, sidb_simulation_parameters{}};
    L          l = lay(s);
    CDS        c{l};
    const int  k = static_cast<int>(vx_concretize(vx_range("added", 0, static_cast<unsigned>(m.n - 1))));
    // a surface without the dot that is added
    std::vector<SC> less{};
    for (int i = 0; i < m.n; ++i)
        if (i != k)
            less.push_back(m.s[i]);
    L   f = lay(less);
    CDS d{f};
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = static_cast<int>(vx_concretize(vx_range(CN[i], 0, 2))) - 1;
        if (i != k)
            d.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    d.add_sidb(m.s[k], sidb_of(m.q[k]));
    bool ok = d.get_sidb_order().size() == static_cast<std::size_t>(m.n);
    for (int i = 0; i < m.n && ok; ++i)
        ok &= d.get_sidb_order()[static_cast<std::size_t>(i)] == m.s[i] && charge_of(d.get_charge_state_by_index(static_cast<std::uint64_t>(i))) == m.q[i] && charge_of(d.get_charge_state(m.s[i])) == m.q[i] &&
              d.cell_to_index(m.s[i]) == i;
    vx_check(ok, "dots are in order and keep their charges");
    // there is nothing beyond the last dot
    const auto n = static_cast<std::uint64_t>(m.n) + vx_concretize(vx_range("beyond", 0, 1));
    vx_check(!c.get_local_potential_caused_by_defects_by_index(n).has_value() && !c.get_local_potential_by_index(n).has_value() && c.get_charge_state_by_index(n) == sidb_charge_state::NONE, "there is nothing beyond the last dot");
    vx_check(c.get_local_potential_caused_by_defects_by_index(n - 1).has_value() == (n == static_cast<std::uint64_t>(m.n)), "there is nothing beyond the last dot");
}
