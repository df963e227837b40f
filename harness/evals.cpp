// Evaluation of simulation results: energies, degeneracy, ground states, occupation and stability.
#include "charge_model.h"
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp>
#include <fiction/algorithms/simulation/sidb/is_ground_state.hpp>
#include <fiction/algorithms/simulation/sidb/minimum_energy.hpp>
#include <fiction/algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp>
#include <fiction/algorithms/simulation/sidb/physical_population_stability.hpp>
#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>
#include <set>
namespace
{
// three dots in a row: every distribution and its mirror image have the same energy
const std::vector<SC> ROW{SC{0, 0, 0}, SC{4, 0, 0}, SC{8, 0, 0}};
const std::vector<SC> BENT{SC{0, 0, 0}, SC{5, 0, 1}, SC{3, 2, 0}};
struct dist
{
    int q[3];
};
dist pick(int base)
{
    auto r = vx_concretize(vx_range("charges", 0, base == 2 ? 7 : 26));
    dist d{};
    for (int i = 0; i < 3; ++i, r /= static_cast<unsigned>(base))
        d.q[i] = static_cast<int>(r % static_cast<unsigned>(base)) - 1;
    return d;
}
CDS make(const L& l, const sidb_simulation_parameters& p, const std::vector<SC>& s, const dist& d)
{
    CDS c{l, p};
    for (int i = 0; i < 3; ++i)
        c.assign_charge_state(s[i], sidb_of(d.q[i]));
    c.update_after_charge_change();
    c.charge_distribution_to_index_general();
    return c;
}
bool same(const dist& a, const dist& b)
{
    return a.q[0] == b.q[0] && a.q[1] == b.q[1] && a.q[2] == b.q[2];
}
double energy(const std::vector<SC>& s, const sidb_simulation_parameters& p, const dist& d)
{
    model m{s, p};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if (m.s[i] == s[j])
                m.q[i] = d.q[j];
    return m.energy();
}
std::vector<dist> pick_some(int base, int most)
{
    std::vector<dist> r;
    const auto        k = vx_concretize(vx_range("count", 0, static_cast<std::uint64_t>(most)));
    for (unsigned i = 0; i < k; ++i)
        r.push_back(pick(base));
    return r;
}
}  // namespace
VX_ENTRY(ev_states)
{
    // energies are kept in order, each with its degeneracy
    const double        LEVEL[] = {-0.3, -0.29999, 0.0, 0.125};
    energy_distribution d{};
    double              e[4];
    std::uint64_t       g[4];
    const unsigned      n    = VX_B(3, 4);
    const char* const   en[] = {"e0", "e1", "e2", "e3"};
    const char* const   gn[] = {"g0", "g1", "g2", "g3"};
    vx_check(d.empty() && d.size() == 0 && !d.get_nth_state(0).has_value() && !d.degeneracy(0.0).has_value(), "an empty distribution has no states");
    for (unsigned i = 0; i < n; ++i)
    {
        e[i] = LEVEL[vx_concretize(vx_range(en[i], 0, 3))];
        g[i] = vx_u64(gn[i]);
        d.add_energy_state(energy_state{e[i], g[i]});
    }
    unsigned different = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned last = i, below = 0;
        bool     first = true, low = true, high = true;
        for (unsigned j = 0; j < n; ++j)
        {
            if (e[j] == e[i])
                last = j;
            first = first && (j >= i || e[j] != e[i]);
            low   = low && e[j] >= e[i];
            high  = high && e[j] <= e[i];
            bool fresh = true;
            for (unsigned k = 0; k < j; ++k)
                fresh = fresh && e[k] != e[j];
            below += fresh && e[j] < e[i];
        }
        different += first;
        const auto s = d.get_nth_state(below);
        vx_check(s.has_value() && s->electrostatic_potential_energy == e[i] && s->degeneracy == g[last], "states are numbered in order of energy and keep the last degeneracy given");
        const auto found = d.degeneracy(e[i]);
        vx_check(found.has_value() && *found == g[last], "degeneracy of an energy is the number of its states");
        vx_check(low == (d.min_energy() == e[i]) && high == (d.max_energy() == e[i]), "least and greatest energy");
    }
    vx_check(d.size() == different && !d.empty(), "one state per energy");
    vx_check(!d.get_nth_state(different).has_value(), "no states beyond the last");
    const double x     = LEVEL[vx_concretize(vx_range("other", 0, 3))];
    bool         known = false;
    for (unsigned i = 0; i < n; ++i)
        known |= e[i] == x;
    vx_check(d.degeneracy(x).has_value() == known, "energies that do not occur have no degeneracy");
    double   before = -1e9;
    unsigned times  = 0;
    d.for_each(
        [&](const double en_, const std::uint64_t)
        {
            vx_check(en_ > before, "iteration in order");
            before = en_;
            ++times;
        });
    vx_check(times == different, "iteration over all energies");
}
VX_ENTRY(ev_energies)
{
    // distinct charge distributions are counted once under their energy
    const bool                       bent = vx_concretize(vx_range("bent", 0, 1)) != 0;
    const auto&                      s    = bent ? BENT : ROW;
    const int                        base = 2 + static_cast<int>(vx_concretize(vx_range("base", 0, 1)));
    const sidb_simulation_parameters p{static_cast<std::uint8_t>(base), -0.32};
    const L                          l    = lay(s);
    const auto                       want = pick_some(base, base == 2 ? static_cast<int>(VX_B(3, 4)) : static_cast<int>(VX_B(2, 3)));
    std::vector<CDS>                 c;
    for (const auto& d : want)
        c.push_back(make(l, p, s, d));
    const auto r = calculate_energy_distribution(c);
    std::vector<dist> unique;
    for (const auto& d : want)
    {
        bool fresh = true;
        for (const auto& u : unique)
            fresh &= !same(u, d);
        if (fresh)
            unique.push_back(d);
    }
    std::uint64_t total = 0;
    double        least = 1e9;
    for (const auto& u : unique)
    {
        const double  e    = energy(s, p, u);
        std::uint64_t with = 0;
        for (const auto& w : unique)
            with += std::abs(energy(s, p, w) - e) < 1e-7;
        least          = std::min(least, e);
        bool    found = false;
        r.for_each(
            [&](const double en, const std::uint64_t g)
            {
                if (std::abs(en - e) > 5e-7)
                    return;
                vx_check(!found, "one state per energy");
                found = true;
                vx_check(g == with, "degeneracy is the number of distributions with the energy");
            });
        vx_check(found, "energies of all distributions occur");
    }
    r.for_each([&](const double, const std::uint64_t g) { total += g; });
    vx_check(total == unique.size(), "every distribution is counted once");
    vx_check(c.size() == want.size(), "the distributions are left alone");
    const double m = minimum_energy(c.cbegin(), c.cend());
    vx_check(unique.empty() ? std::isinf(m) && m > 0 : near(m, least), "minimum energy");
    const auto it = minimum_energy_distribution(c.cbegin(), c.cend());
    vx_check((it == c.cend()) == c.empty(), "a distribution of minimum energy exists unless there is none");
    if (it != c.cend())
        vx_check(near(it->get_electrostatic_potential_energy(), least), "distribution of minimum energy");
}
VX_ENTRY(ev_compare)
{
    // results are equivalent when they contain the same distributions; the ground state is found when all of them are
    const bool                       bent = vx_concretize(vx_range("bent", 0, 1)) != 0;
    const auto&                      s    = bent ? BENT : ROW;
    const sidb_simulation_parameters p{2, -0.32};
    const L                          l = lay(s);
    const auto                       a = pick_some(2, 2), b = pick_some(2, static_cast<int>(VX_B(2, 3)));
    for (const auto* v : {&a, &b})
        for (unsigned i = 0; i < v->size(); ++i)
            for (unsigned j = 0; j < i; ++j)
                vx_assume(!same((*v)[i], (*v)[j]));
    sidb_simulation_result<L> ra{}, rb{};
    for (const auto& d : a)
        ra.charge_distributions.push_back(make(l, p, s, d));
    for (const auto& d : b)
        rb.charge_distributions.push_back(make(l, p, s, d));
    const auto within = [](const std::vector<dist>& x, const std::vector<dist>& y)
    {
        bool r = true;
        for (const auto& d : x)
        {
            bool f = false;
            for (const auto& e : y)
                f |= same(d, e);
            r &= f;
        }
        return r;
    };
    vx_check(check_simulation_results_for_equivalence(ra, rb) == (within(a, b) && within(b, a)), "equivalent results contain the same distributions");
    const auto lowest = [&](const std::vector<dist>& x)
    {
        double            least = 1e9;
        std::vector<dist> r;
        for (const auto& d : x)
            least = std::min(least, energy(s, p, d));
        for (const auto& d : x)
            if (energy(s, p, d) < least + 1e-7)
                r.push_back(d);
        return r;
    };
    const auto ga = lowest(a), gb = lowest(b);
    vx_assume(ga.size() <= gb.size());  // asserted by the function
    vx_check(is_ground_state(ra, rb) == (!b.empty() && within(ga, gb) && within(gb, ga)), "the ground states were found");
}
VX_ENTRY(ev_tts)
{
    // accuracy is the share of runs that found the ground state
    const sidb_simulation_parameters p{2, -0.32};
    const L                          l = lay(BENT);
    sidb_simulation_result<L>        exact{};
    exact.charge_distributions.push_back(make(l, p, BENT, dist{{-1, 0, -1}}));
    exact.simulation_runtime = std::chrono::duration<double>(0.5);
    const auto runs          = vx_concretize(vx_range("runs", 1, VX_B(4, 6)));
    unsigned   right         = 0;
    double     time          = 0;
    std::vector<sidb_simulation_result<L>> some;
    for (unsigned i = 0; i < runs; ++i)
    {
        sidb_simulation_result<L> r{};
        const auto                kind = vx_concretize(vx_range("kind", 0, 2));
        if (kind == 0)
            r.charge_distributions.push_back(make(l, p, BENT, dist{{-1, 0, -1}}));
        if (kind == 1)
            r.charge_distributions.push_back(make(l, p, BENT, dist{{-1, -1, -1}}));
        right += kind == 0;
        r.simulation_runtime = std::chrono::duration<double>(0.25 * (i + 1));
        time += 0.25 * (i + 1);
        some.push_back(r);
    }
    const double           conf = vx_concretize(vx_range("confidence", 0, 1)) == 0 ? 0.997 : 0.5;
    time_to_solution_stats st{};
    st.algorithm = "X";
    time_to_solution_for_given_simulation_results(exact, some, conf, &st);
    const double acc = static_cast<double>(right) / static_cast<double>(runs), mean = time / static_cast<double>(runs);
    vx_check(near(st.acc, 100 * acc) && near(st.mean_single_runtime, mean) && st.single_runtime_exact == 0.5 && st.algorithm == "X", "statistics of the runs");
    if (right == 0)
        vx_check(std::isinf(st.time_to_solution) && st.time_to_solution > 0, "never found: infinite time");
    else if (right == runs)
        vx_check(near(st.time_to_solution, mean), "always found: time of one run");
    else
        vx_check(near(st.time_to_solution, mean * std::log(1 - conf) / std::log(1 - acc)), "runs until the ground state is found with the confidence");
}
VX_ENTRY(ev_occupation)
{
    // Boltzmann distribution over the states
    const double              level[] = {-0.2, -0.199, -0.15, 0.0, 0.3};
    const double              temp    = vx_concretize(vx_range("temperature", 0, 2)) * 150.0 + 0.25;
    const auto                n       = vx_concretize(vx_range("states", 0, VX_B(3, 4)));
    sidb_energy_and_state_type v{};
    double                    sum = 0, bad = 0, least = 1e9;
    double                    e[4];
    bool                      rejected[4];
    for (unsigned i = 0; i < n; ++i)
    {
        e[i]        = level[vx_concretize(vx_range("level", 0, 4))];
        rejected[i] = vx_concretize(vx_range("rejected", 0, 1)) != 0;
        v.emplace_back(e[i], rejected[i] ? state_type::REJECTED : state_type::ACCEPTED);
        least = std::min(least, e[i]);
    }
    const double kt = 1.38064852e-23 / 1.602176634e-19 * temp;
    for (unsigned i = 0; i < n; ++i)
    {
        const double w = std::exp(-(e[i] - least) / kt);
        sum += w;
        bad += rejected[i] ? w : 0.0;
    }
    const double p = occupation_probability_gate_based(v, temp);
    vx_check(p >= 0.0 && p <= 1.0 + 1e-12, "a probability");
    vx_check(n == 0 ? p == 0.0 : std::abs(p - bad / sum) < 1e-5, "probability of the rejected states");
}
VX_ENTRY(ev_occupation_levels)
{
    const double        level[] = {-0.2, -0.1999999, -0.199, -0.15, 0.0, 0.3};
    const double        temp    = vx_concretize(vx_range("temperature", 0, 2)) * 150.0 + 0.25;
    const auto          n       = vx_concretize(vx_range("states", 0, VX_B(3, 4)));
    energy_distribution d{};
    double              e[4], g[4], least = 1e9;
    for (unsigned i = 0; i < n; ++i)
    {
        const auto k = vx_concretize(vx_range("level", 0, 5));
        const auto t = vx_concretize(vx_range("degeneracy", 1, 3));
        e[i]         = level[k];
        for (unsigned j = 0; j < i; ++j)
            vx_assume(e[i] != e[j]);
        g[i] = static_cast<double>(t);
        d.add_energy_state(energy_state{e[i], t});
        least = std::min(least, e[i]);
    }
    const double kt  = 1.38064852e-23 / 1.602176634e-19 * temp;
    double       sum = 0, bad = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        const double w = g[i] * std::exp(-(e[i] - least) / kt);
        sum += w;
        bad += e[i] - least > 1e-6 ? w : 0.0;  // the same up to the sixth decimal place
    }
    const double p = occupation_probability_non_gate_based(d, temp);
    vx_check(n == 0 ? p == 0.0 : std::abs(p - bad / sum) < 1e-5, "probability of the excited states");
}
VX_ENTRY(ev_positive)
{
    // when positive charges are excluded, no valid distribution has one
    const int       at[6][3] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {3, 0, 1}, {4, 1, 0}, {10, 3, 1}};
    const auto      set      = vx_concretize(vx_range("sites", 1, 63));
    std::vector<SC> s;
    for (int i = 0; i < 6; ++i)
        if ((set >> i) & 1u)
            s.push_back(SC{at[i][0], at[i][1], at[i][2]});
    vx_assume(s.size() <= VX_B(3, 4));
    const double mu = vx_f64("mu");
    vx_assume(mu >= -2.0 && mu <= 1.0);
    const sidb_simulation_parameters p{3, mu};
    model                            m{s, p};
    const bool                       can = can_positive_charges_occur(lay(s), p);
    double                           most = 0;
    for (int i = 0; i < m.n; ++i)
        m.q[i] = -1;
    for (int i = 0; i < m.n; ++i)
        most = std::min(most, m.internal(i));
    // a dot surrounded by negative ones turns positive below mu+
    vx_check(!(most < mu - 0.59 - model::band) || can, "positive charges can occur next to negative ones");
    vx_check(!(most > mu - 0.59 + model::band) || !can, "positive charges cannot occur even next to negative ones");
    int total = 1;
    for (int i = 0; i < m.n; ++i)
        total *= 3;
    for (int k = 0; k < total; ++k)
    {
        for (int i = 0, r = k; i < m.n; ++i, r /= 3)
            m.q[i] = r % 3 - 1;
        if (m.count(1) > 0)
            vx_check(can || !m.surely_valid(mu), "no valid distribution with positive charges when they are excluded");
    }
}
VX_ENTRY(ev_stability)
{
    // the transition of each kind that needs the least potential
    const int       at[6][3] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {3, 0, 1}, {4, 1, 0}, {10, 3, 1}};
    const auto      set      = vx_concretize(vx_range("sites", 1, 63));
    std::vector<SC> s;
    for (int i = 0; i < 6; ++i)
        if ((set >> i) & 1u)
            s.push_back(SC{at[i][0], at[i][1], at[i][2]});
    vx_assume(s.size() <= VX_B(2, 3));
    const double                         mu = -0.75 + 0.08 * static_cast<double>(vx_concretize(vx_range("mu", 0, 8)));
    const sidb_simulation_parameters     p{3, mu};
    model                                m{s, p};
    const L                              l = lay(s);
    physical_population_stability_params q{p, 1};
    const auto                           r     = physical_population_stability(l, q);
    double                               below = -1e9;
    const auto                           exact = quickexact(l, quickexact_params<SC>{p});
    vx_check(r.size() == exact.charge_distributions.size(), "stability of every valid distribution");
    std::vector<int> seen;
    for (const auto& x : r)
    {
        vx_check(x.system_energy >= below - 1e-12, "in order of energy");
        below = x.system_energy;
        // it is the stability of one of the distributions with that energy
        bool any = false;
        for (unsigned k = 0; k < exact.charge_distributions.size(); ++k)
        {
            const auto& c = exact.charge_distributions[k];
            for (int i = 0; i < m.n; ++i)
                m.q[i] = charge_of(c.get_charge_state(m.s[i]));
            if (!near(x.system_energy, m.energy()) || std::find(seen.begin(), seen.end(), static_cast<int>(k)) != seen.end())
                continue;
            double least[4] = {1e300, 1e300, 1e300, 1e300}, loose = 1e300;
            for (int i = 0; i < m.n; ++i)
            {
                const double to_minus = std::abs(mu - m.internal(i)), to_plus = std::abs(mu - 0.59 - m.internal(i));
                if (m.q[i] < 0)
                    least[1] = std::min(least[1], to_minus);
                if (m.q[i] > 0)
                    least[3] = std::min(least[3], to_plus);
                if (m.q[i] == 0)
                {
                    least[2] = std::min(least[2], to_plus);
                    loose    = std::min(loose, to_minus);
                    if (to_minus < to_plus)
                        least[0] = std::min(least[0], to_minus);
                }
            }
            const transition_type t[4] = {transition_type::NEUTRAL_TO_NEGATIVE, transition_type::NEGATIVE_TO_NEUTRAL, transition_type::NEUTRAL_TO_POSITIVE, transition_type::POSITIVE_TO_NEUTRAL};
            bool                  fits = true;
            double                all  = 1e300;
            for (int i = 0; i < 4; ++i)
            {
                const double v = x.transition_potentials.at(t[i]).second;
                all            = std::min(all, v);
                // a neutral dot that is closer to turning positive may or may not count for turning negative
                fits &= std::isinf(v) ? least[i] == 1e300 : near(v, least[i]) || (i == 0 && near(v, loose));
            }
            if (!fits)
                continue;
            any = true;
            seen.push_back(static_cast<int>(k));
            for (int i = 0; i < 4; ++i)
            {
                const auto& [c0, v] = x.transition_potentials.at(t[i]);
                if (std::isinf(v))
                    continue;
                bool at_dot = false;
                for (int j = 0; j < m.n; ++j)
                    at_dot |= m.s[j] == c0 && near(v, std::abs((i < 2 ? mu : mu - 0.59) - m.internal(j))) && m.q[j] == (i == 1 ? -1 : i == 3 ? 1 : 0);
                vx_check(at_dot, "transitions happen at dots with the charge and potential");
                vx_check(x.distance_corresponding_to_potential.at(t[i]) == potential_to_distance_conversion(v, p, 1), "distances are those of the potentials");
                if (x.critical_cell == c0 && v == all)
                    at_dot = true;
            }
            bool critical = false;
            for (int i = 0; i < 4; ++i)
                critical |= x.transition_potentials.at(t[i]).second == all && x.transition_potentials.at(t[i]).first == x.critical_cell;
            vx_check(critical, "the critical dot is the one with the least transition");
            break;
        }
        vx_check(any, "least potentials of all transitions");
    }
}
VX_ENTRY(ev_critical)
{
    // the least temperature at which excited states are occupied with more than the tolerated probability
    const auto      dx = vx_concretize(vx_range("dx", 0, 3)), dy = vx_concretize(vx_range("dy", 0, 0));
    std::vector<SC> s{SC{0, 0, 0}, SC{0, 1, 0}, SC{static_cast<int>(9 + 2 * dx), static_cast<int>(dy), 0}, SC{static_cast<int>(9 + 2 * dx), static_cast<int>(dy) + 1, 1}};
    critical_temperature_params q{};
    q.operational_params.simulation_parameters = sidb_simulation_parameters{2, -0.2};
    q.max_temperature                          = 1.0 + static_cast<double>(vx_concretize(vx_range("kelvin", 0, VX_B(1, 3))));
    q.confidence_level                         = vx_f64("confidence");
    vx_assume(q.confidence_level >= 0.0 && q.confidence_level <= 1.0);
    critical_temperature_stats st{};
    const L                    l  = lay(s);
    const double               ct = critical_temperature_non_gate_based(l, q, &st);
    const auto                 r  = quickexact(l, quickexact_params<SC>{q.operational_params.simulation_parameters, quickexact_params<SC>::automatic_base_number_detection::OFF});
    vx_check(st.num_valid_lyt == r.charge_distributions.size(), "number of valid distributions");
    double least = 1e9, second = 1e9;
    for (const auto& c : r.charge_distributions)
        least = std::min(least, c.get_electrostatic_potential_energy());
    for (const auto& c : r.charge_distributions)
        if (c.get_electrostatic_potential_energy() > least + 1e-6)
            second = std::min(second, c.get_electrostatic_potential_energy());
    vx_check(second == 1e9 ? std::isinf(st.energy_between_ground_state_and_first_erroneous) : near(st.energy_between_ground_state_and_first_erroneous, 1000 * (second - least)), "energy up to the first excited state");
    const auto excited = [&](double t)
    {
        double       sum = 0, bad = 0;
        const double kt = 1.38064852e-23 / 1.602176634e-19 * t;
        for (const auto& c : r.charge_distributions)
        {
            const double e = c.get_electrostatic_potential_energy() - least, w = std::exp(-e / kt);
            sum += w;
            bad += e > 1e-6 ? w : 0.0;
        }
        return bad / sum;
    };
    vx_check(ct > 0.0 && ct <= q.max_temperature, "a temperature up to the maximum");
    // probabilities within the precision of the constants are not judged
    vx_check(ct == q.max_temperature || excited(ct) + 1e-7 > 1.0 - q.confidence_level, "above it, excited states are occupied too often");
    vx_check(ct < 0.015 || !(excited(ct - 0.01) - 1e-7 > 1.0 - q.confidence_level), "below it, they are not");
}
