// Ground state simulation: the engines find exactly the physically valid distributions of charges.
#include "charge_model.h"
#include <random>
// random choices are arbitrary ones
template <>
template <>
inline std::uint64_t std::uniform_int_distribution<std::uint64_t>::operator()(std::mt19937_64& g)
{
    (void)g();  // advance the generator, which therefore must not be shared by threads
    return a() + vx_concretize(vx_range("choice", 0, b() - a()));
}
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>
namespace
{
constexpr int NP = 6;
const int     SP[NP][3] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {3, 0, 1}, {4, 1, 0}, {10, 3, 1}};
SC sp(int i)
{
    return SC{SP[i][0], SP[i][1], SP[i][2]};
}
std::vector<SC> choose(int least, int most)
{
    std::vector<SC> r;
    const auto      m = vx_concretize(vx_range("sites", 0, (1u << NP) - 1));
    for (int i = 0; i < NP; ++i)
        if ((m >> i) & 1u)
            r.push_back(sp(i));
    vx_assume(static_cast<int>(r.size()) >= least && static_cast<int>(r.size()) <= most);
    return r;
}
// all distributions that are surely valid are found, and no surely invalid one
template <typename C>
void judge(const std::vector<C>& found, model m, double mu, int base, double slack = 1e-8)
{
    int total = 1;
    for (int i = 0; i < m.n; ++i)
        total *= base;
    int seen = 0;
    for (int k = 0; k < total; ++k)
    {
        for (int i = 0, r = k; i < m.n; ++i, r /= base)
            m.q[i] = r % base - 1;
        int times = 0;
        for (const auto& c : found)
        {
            bool same = true;
            for (int i = 0; i < m.n; ++i)
                same = same && charge_of(c.get_charge_state(m.s[i])) == m.q[i];
            if (!same)
                continue;
            ++times;
            vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies are those of the distributions");
            vx_check(c.is_physically_valid() || !m.surely_valid(mu, model::band), "distributions found are marked valid");
        }
        seen += times;
        vx_check(times <= 1, "no distribution is found twice");
        vx_check(times > 0 || !m.surely_valid(mu, slack), "every valid distribution is found");
        vx_check(times == 0 || !m.surely_invalid(mu), "every distribution found is valid");
    }
    vx_check(seen == static_cast<int>(found.size()), "only distributions of the dots are found");
}
template <typename C>
void judge_ground(const std::vector<C>& ground, const std::vector<C>& found, const model& m)
{
    const auto code = [&m](const C& c)
    {
        int r = 0;
        for (int i = 0; i < m.n; ++i)
            r = 4 * r + charge_of(c.get_charge_state(m.s[i])) + 1;
        return r;
    };
    double least = 1e9;
    for (const auto& c : found)
        least = std::min(least, c.get_electrostatic_potential_energy());
    std::vector<int> may, must, is;
    for (const auto& c : found)
    {
        if (c.get_electrostatic_potential_energy() < least + 2e-6)
            may.push_back(code(c));
        if (c.get_electrostatic_potential_energy() < least + 5e-7)
            must.push_back(code(c));
    }
    for (const auto& c : ground)
    {
        vx_check(std::find(is.begin(), is.end(), code(c)) == is.end(), "ground states are listed once");
        is.push_back(code(c));
        vx_check(std::find(may.begin(), may.end(), code(c)) != may.end(), "ground states are distributions of least energy");
    }
    for (const auto c : must)
        vx_check(std::find(is.begin(), is.end(), c) != is.end(), "distributions of least energy are ground states");
}
}  // namespace
VX_ENTRY(gs_exhaustive)
{
    const auto   s  = choose(1, static_cast<int>(VX_B(3, 4)));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    const auto                       base = static_cast<std::uint8_t>(vx_concretize(vx_range("base", 2, 3)));
    const sidb_simulation_parameters p{base, mu};
    const model                      m{s, p};
    const L                          l = lay(s);
    const auto                       r = exhaustive_ground_state_simulation(l, p);
    judge(r.charge_distributions, m, mu, base);
    judge_ground(r.groundstates(), r.charge_distributions, m);
}
VX_ENTRY(gs_quickexact)
{
    const auto   s  = choose(1, static_cast<int>(VX_B(3, 4)));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    const auto                       base = static_cast<std::uint8_t>(2 + vx_part() / 6);
    const bool                       det  = (vx_part() / 3) % 2 != 0;
    const sidb_simulation_parameters p{base, mu};
    model                            m{s, p};
    const L                          l = lay(s);
    quickexact_params<SC>            q{p};
    q.base_number_detection = det ? quickexact_params<SC>::automatic_base_number_detection::ON : quickexact_params<SC>::automatic_base_number_detection::OFF;
    const auto e = vx_part() % 3;
    if (e == 1)
    {
        q.local_external_potential = {{m.s[0], -0.27}};
        m.ext[0]                   = -0.27;
    }
    if (e == 2)
    {
        q.global_potential = 0.15;
        for (int i = 0; i < m.n; ++i)
            m.ext[i] = 0.15;
    }
    const auto r = quickexact(l, q);
    judge(r.charge_distributions, m, mu, det ? 3 : base, model::band);  // states within the tolerance of each other are represented by one
    judge_ground(r.groundstates(), r.charge_distributions, m);
    vx_check(l.num_cells() == s.size(), "the layout is left alone");
}

VX_ENTRY(gs_quicksim)
{
    // whatever the random choices and the order of the threads, only valid distributions are returned
    const auto   s  = choose(1, static_cast<int>(3));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    vx_thread_order = 2;
    const sidb_simulation_parameters p{2, mu};
    model                            m{s, p};
    const L                          l = lay(s);
    quicksim_params                  q{p};
    q.number_threads  = vx_concretize(vx_range("threads", 0, s.size() < VX_B(3, 4) ? 2 : 1));
    q.iteration_steps = vx_concretize(vx_range("steps", 0, s.size() < VX_B(3, 4) ? 2 : 1));
    q.alpha           = vx_concretize(vx_range("alpha", 0, 1)) == 0 ? 0.7 : 0.0;
    const auto r      = quicksim(l, q);
    vx_check(q.iteration_steps > 0 || !r.has_value(), "no steps, no result");
    // every search starts from a single further electron and goes on until all dots are negative
    if (q.iteration_steps > 0)
        for (int k = 0; k <= m.n; ++k)
        {
            for (int i = 0; i < m.n; ++i)
                m.q[i] = k == m.n || i == k ? -1 : 0;
            bool found = false;
            if (r.has_value())
                for (const auto& c : r->charge_distributions)
                {
                    bool same = true;
                    for (int i = 0; i < m.n; ++i)
                        same &= charge_of(c.get_charge_state(m.s[i])) == m.q[i];
                    found |= same;
                }
            vx_check(found || !m.surely_valid(mu, 1e-8), "valid distributions of a single electron or of electrons only are found");
        }
    if (!r.has_value())
        return;
    vx_check(!r->charge_distributions.empty(), "a result contains distributions");
    for (const auto& c : r->charge_distributions)
    {
        for (int i = 0; i < m.n; ++i)
            m.q[i] = charge_of(c.get_charge_state(m.s[i]));
        bool states = true;
        for (int i = 0; i < m.n; ++i)
            states &= m.q[i] == 0 || m.q[i] == -1;
        vx_check(states, "dots are negative or neutral");
        vx_check(!m.surely_invalid(mu), "every distribution found is valid");
        vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies are those of the distributions");
        std::uint64_t ix = 0;
        for (int i = 0; i < m.n; ++i)
            ix = 2 * ix + static_cast<std::uint64_t>(m.q[i] + 1);
        vx_check(c.get_charge_index_and_base().first == ix, "indices are those of the distributions");
    }
    judge_ground(r->groundstates(), r->charge_distributions, m);
}
VX_ENTRY(gs_quicksim_none)
{
    // without dots, there is nothing to be found
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    quicksim_params q{sidb_simulation_parameters{2, mu}};
    q.number_threads  = 1;
    q.iteration_steps = vx_concretize(vx_range("steps", 0, 2));
    vx_check(!quicksim(L{}, q).has_value(), "without dots, there is no result");
}
VX_ENTRY(gs_search)
{
    // the search adds electrons to neutral dots, one at a time, far from the other electrons
    const auto                       s = choose(2, static_cast<int>(VX_B(3, 4)));
    const sidb_simulation_parameters p{2, -0.32};
    model                            m{s, p};
    const L                          l = lay(s);
    CDS                              c{l, p};
    const auto                       neg = vx_concretize(vx_range("negative", 1, (1u << m.n) - 1)), pos = vx_concretize(vx_range("positive", 0, static_cast<unsigned>(m.n)));
    const auto                       a     = vx_concretize(vx_range("alpha", 0, 3));
    const double                     alpha = a == 0 ? 0.0 : a == 1 ? 0.5 : a == 2 ? 0.8 : 1.0;
    std::vector<std::uint64_t>       ix{};
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = ((neg >> i) & 1u) != 0 ? -1 : i == static_cast<int>(pos) ? 1 : 0;
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]), charge_index_mode::KEEP_CHARGE_INDEX);
        if (m.q[i] == -1)
            ix.push_back(static_cast<std::uint64_t>(c.cell_to_index(m.s[i])));
    }
    c.update_after_charge_change();
    for (int step = 0; step < m.n; ++step)
    {
        double d[6]{}, far = 0.0;
        int    neutral = 0;
        for (int i = 0; i < m.n; ++i)
        {
            d[i] = 1e9;
            for (int j = 0; j < m.n; ++j)
                if (m.q[j] == -1)
                    d[i] = std::min(d[i], model::dist(m.s[i], m.s[j]));
            if (m.q[i] == 0)
                far = std::max(far, d[i]), ++neutral;
        }
        const auto before = ix;
        c.adjacent_search(alpha, ix);
        int added = 0;
        for (int i = 0; i < m.n; ++i)
        {
            const int q = charge_of(c.get_charge_state(m.s[i]));
            if (q == m.q[i])
                continue;
            ++added;
            vx_check(m.q[i] == 0 && q == -1, "neutral dots become negative");
            vx_check(d[i] >= alpha * far - 1e-9, "electrons are added far from the others");
            vx_check(ix.size() == before.size() + 1 && ix.back() == static_cast<std::uint64_t>(c.cell_to_index(m.s[i])), "the electron is listed");
            m.q[i] = q;
        }
        vx_check(added == (neutral > 0 ? 1 : 0), "an electron is added while there are neutral dots");
        vx_check(ix.size() == before.size() + static_cast<std::size_t>(added) && std::equal(before.begin(), before.end(), ix.begin()), "electrons are listed in order");
        bool ok = true;
        for (int i = 0; i < m.n; ++i)
            ok &= near(*c.get_local_internal_potential(m.s[i]), m.internal(i));
        vx_check(ok, "potentials follow the electrons");
        vx_check(near(c.get_electrostatic_potential_energy(), m.energy()), "energies follow the electrons");
        c.validity_check();
        const bool v = c.is_physically_valid();
        vx_check(!v || !m.surely_invalid(-0.32), "valid distributions are stable");
        vx_check(v || !m.surely_valid(-0.32), "stable distributions are valid");
    }
}
