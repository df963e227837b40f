// Simulated annealing with arbitrary random numbers.
#include "vx.h"

#include <random>

namespace
{
int    draws = 0;
double drawn = 0.0;
}  // namespace
template <>
template <typename G>
double std::uniform_real_distribution<double>::operator()(G&)
{
    const double u = vx_f64("random");
    vx_assume(u >= 0.0 && u < 1.0);
    const double a = this->a(), b = this->b();
    ++draws;
    return drawn = a == 0.0 && b == 1.0 ? u : a + u * (b - a);
}

#include <fiction/algorithms/optimization/simulated_annealing.hpp>

#include <cmath>
#include <vector>

using namespace fiction;

// a worse state is taken with the probability of Metropolis' criterion
VX_ENTRY(sa_metropolis)
{
    static const double temps[] = {0.25, 0.5, 1.0, 2.5, 7.0};
    const auto          temp    = temps[vx_concretize(vx_range("temp", 0, 4))];
    const auto          start   = static_cast<int>(vx_concretize(vx_range("start", 0, 3)));
    const auto          better  = static_cast<int>(vx_concretize(vx_range("better", 0, 2)));
    const auto          worse   = static_cast<int>(vx_concretize(vx_range("worse", 0, VX_B(12, 30))));
    // from a state of another cost to the best one, then to one that is as good or worse
    const int        costs[] = {start + better, start, start + worse, start + worse};
    std::vector<int> from;
    int              fresh = 0, of_last = 0;
    double           last = 0;
    const auto       r     = simulated_annealing(
        0, temp, 0.0, 3, [&](const int s) { return s < 4 ? costs[s] : 1000; }, [](const double) { return 0.0; },
        [&](const int s)
        {
            from.push_back(s);
            if (from.size() == 2)
                draws = 0;
            else if (from.size() == 3)
                of_last = draws, last = drawn;
            return ++fresh;
        });
    vx_check(from.size() == 3 && from[0] == 0 && (better == 0 || from[1] == 1), "a better state is taken");
    if (from[1] == 1)
    {
        const bool taken = from[2] == 2;
        vx_check(worse != 0 || taken, "a state as good is taken");
        const double p = std::exp(-static_cast<double>(worse) / temp);
        if (worse != 0 && of_last == 0)
            vx_check(!taken && p < 1e-4, "no worse state is taken for sure");
        else if (worse != 0)
        {
            vx_check(taken ? last <= p + 1e-12 : last >= p - 1e-12, "a worse state is taken with the probability exp(-difference/temperature)");
            if (taken)
                vx_reach("taken");
            else
                vx_reach("not taken");
        }
    }
    vx_check(r.second == start && costs[r.first] == start, "the best state is returned");
}
