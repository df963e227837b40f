// Simulated annealing, CSV writing.
#include "vx.h"
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <fiction/io/csv_writer.hpp>
#include <atomic>
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
using namespace fiction;
namespace
{
constexpr int MAXS = 12;
int           cost_of[MAXS];
int           visited;
int           cost_calls;
const char*   names[MAXS] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11"};
void          draw(int n, int lim)
{
    for (int i = 0; i < n; ++i)
        cost_of[i] = static_cast<int>(vx_irange(names[i], -lim, lim));
}
}  // namespace
// One run over states 0 (initial), 1, 2, ... : next() hands out a fresh state each time and records from which state it moved
VX_ENTRY(sa_run)
{
    const int levels = static_cast<int>(vx_concretize(vx_range("levels", 0, VX_B(2, 3))));
    const int cycles = static_cast<int>(vx_concretize(vx_range("cycles", 0, 2)));
    const int total  = levels * cycles;
    draw(total + 1, 1000);
    std::vector<int> from;
    int              fresh = 0;
    std::vector<double> temps{};
    const auto       res   = simulated_annealing(
        0, 1.0 * levels, 0.0, static_cast<std::size_t>(cycles), [](const int s) { return cost_of[s]; },
        [&](const double t)
        {
            temps.push_back(t);
            return t - 1.0;
        },
        [&](const int s)
        {
            from.push_back(s);
            return ++fresh;
        });
    vx_check(fresh == total, "every temperature level performs the given number of cycles");
    vx_check(static_cast<int>(temps.size()) == levels, "the schedule is followed from the initial to the final temperature");
    for (int i = 0; i < levels; ++i)
        vx_check(temps[static_cast<std::size_t>(i)] == 1.0 * (levels - i), "the schedule sees the current temperature");
    vx_check(res.first >= 0 && res.first <= fresh, "the result is a visited state");
    vx_check(res.second == cost_of[res.first], "the returned cost is the cost of the returned state");
    bool least = true;
    for (int i = 0; i <= fresh; ++i)
        least = least && res.second <= cost_of[i];
    vx_check(least, "no visited state is cheaper than the returned one");
    vx_observe(static_cast<std::uint64_t>(res.first));
    // moves: the walk continues from the previous candidate iff it was accepted
    int cur = 0;
    for (int i = 0; i < total; ++i)
    {
        vx_check(from[static_cast<std::size_t>(i)] == cur, "neighbours are taken from the current state");
        if (i + 1 == total)
            break;
        const int  cand  = i + 1;
        const int  nextf = from[static_cast<std::size_t>(i) + 1];
        const int  temp  = levels - i / (cycles ? cycles : 1);
        if (cost_of[cand] <= cost_of[cur])
            vx_check(nextf == cand, "a candidate that is not worse is accepted");
        else if (cost_of[cand] - cost_of[cur] > 10 * temp)
            vx_check(nextf == cur, "a far worse candidate is rejected");
        else
            vx_check(nextf == cur || nextf == cand, "a worse candidate is accepted or rejected");
        cur = nextf;
    }
}
VX_ENTRY(sa_accept_worse)
{
    // a worse candidate within ten temperatures can be accepted and can be rejected
    cost_of[0] = 0;
    cost_of[1] = static_cast<int>(vx_irange("c1", 1, 9));
    cost_of[2] = 100;
    std::vector<int> from;
    int              fresh = 0;
    const auto       r     = simulated_annealing(
        0, 1.0, 0.0, 2, [](const int s) { return cost_of[s]; }, [](const double t) { return t - 1.0; },
        [&](const int s)
        {
            from.push_back(s);
            return ++fresh;
        });
    vx_check(r.first == 0 && r.second == 0, "the initial state is the best one");
    if (from[1] == 1)
        vx_reach("a worse candidate is accepted");
    else
        vx_reach("a worse candidate is rejected");
}
VX_ENTRY(sa_clamp)
{
    // schedules that leave the range between the final and the initial temperature are clamped; integers as temperatures
    const double init  = static_cast<double>(static_cast<std::int64_t>(vx_concretize(static_cast<std::uint64_t>(vx_irange("init", -4, 4)))));
    const double fin   = static_cast<double>(static_cast<std::int64_t>(vx_concretize(static_cast<std::uint64_t>(vx_irange("final", -4, 4)))));
    vx_assume(fin <= init);
    const int    step  = static_cast<int>(vx_irange("step", 1, 20));
    int          n     = 0;
    bool         range = true;
    const auto   r     = simulated_annealing(
        7, init, fin, 1, [](const int s) { return s; },
        [&](const double t)
        {
            range = range && t > fin && t <= init;
            ++n;
            return n == 1 ? t + 100.0 : t - static_cast<double>(step);
        },
        [](const int s) { return s; });
    vx_check(range, "temperatures stay between the final and the initial one");
    vx_check(r.first == 7 && r.second == 7, "the initial state is returned if nothing is better");
    vx_observe(static_cast<std::uint64_t>(n));
}
namespace
{
// a state that loses its value when moved from
struct heavy
{
    int v{-1};
    heavy() = default;
    explicit heavy(int x) : v{x} {}
    heavy(const heavy&) = default;
    heavy& operator=(const heavy&) = default;
    heavy(heavy&& o) noexcept : v{o.v} { o.v = -1; }
    heavy& operator=(heavy&& o) noexcept
    {
        if (this != &o)
            v = o.v, o.v = -1;
        return *this;
    }
};
}  // namespace
VX_ENTRY(sa_heavy)
{
    // states that own resources survive the bookkeeping
    draw(4, 50);
    int        fresh = 0;
    bool       alive = true;
    const auto r     = simulated_annealing(
        heavy{0}, 1.0, 0.0, static_cast<std::size_t>(VX_B(2, 3)),
        [&](const heavy& s)
        {
            alive = alive && s.v >= 0;
            return cost_of[s.v < 0 ? 0 : s.v];
        },
        [](const double t) { return t - 1.0; },
        [&](const heavy& s)
        {
            alive = alive && s.v >= 0;
            return heavy{++fresh};
        });
    vx_check(alive, "cost and neighbour functions never see a state that was moved away");
    vx_check(r.first.v >= 0 && r.first.v <= fresh, "the result is a visited state");
    vx_check(r.second == cost_of[r.first.v], "the returned cost is the cost of the returned state");
    bool least = true;
    for (int i = 0; i <= fresh; ++i)
        least = least && r.second <= cost_of[i];
    vx_check(least, "no visited state is cheaper than the returned one");
}
VX_ENTRY(sa_double_cost)
{
    // floating-point costs
    double c[3];
    c[0] = static_cast<double>(vx_irange("c0", -64, 64)) / 8;
    c[1] = static_cast<double>(vx_irange("c1", -64, 64)) / 8;
    c[2] = static_cast<double>(vx_irange("c2", -64, 64)) / 8;
    int        fresh = 0;
    const auto r     = simulated_annealing(
        0, 1.0, 0.0, 2, [&](const int s) { return c[s]; }, [](const double t) { return t - 1.0; }, [&](const int) { return static_cast<int>(++fresh); });
    vx_check(r.second == c[r.first], "the returned cost is the cost of the returned state");
    vx_check(r.second <= c[0] && r.second <= c[1] && r.second <= c[2], "no visited state is cheaper than the returned one");
}
VX_ENTRY(sa_schedules)
{
    const double t = static_cast<double>(vx_irange("t", -100000, 100000)) / 4;
    vx_check(linear_temperature_schedule(t) == t - 10.0, "the linear schedule cools by ten");
    const double u = static_cast<double>(vx_concretize(vx_range("u", 1, 64)));
    vx_check(geometric_temperature_schedule(u) < u && geometric_temperature_schedule(u) > 0.98 * u, "the geometric schedule cools by one percent");
}
VX_ENTRY(sa_multi)
{
    vx_thread_order     = 2;
    const auto inst     = static_cast<std::size_t>(vx_concretize(vx_range("instances", 1, VX_B(3, 4))));
    draw(8, 100);
    std::atomic<int> starts{0}, fresh{static_cast<int>(inst) - 1};
    const auto r      = multi_simulated_annealing(
        1.0, 0.0, 1, inst, [&] { return static_cast<int>(starts++); }, [](const int s) { return cost_of[s]; }, [](const double t) { return t - 1.0; }, [&](const int) { return static_cast<int>(++fresh); });
    vx_check(starts == static_cast<int>(inst), "every instance starts from its own state");
    vx_check(fresh == 2 * static_cast<int>(inst) - 1, "every instance runs");
    vx_check(r.first >= 0 && r.first <= fresh && r.second == cost_of[r.first], "the returned cost is the cost of the returned state");
    bool least = true;
    for (int i = 0; i <= fresh; ++i)
        least = least && r.second <= cost_of[i];
    vx_check(least, "the result is the best over all instances");
}
VX_ENTRY(sa_race)
{
    cost_of[0]    = 0;
    const int   d = static_cast<int>(vx_irange("delta", -2, 9));
    const auto  r = multi_simulated_annealing(
        1.0, 0.0, 2, 2, [] { return 5; }, [](const int s) { return s; }, [](const double t) { return t - 1.0; }, [d](const int s) { return s + d; });
    vx_check(r.second == r.first && r.second <= 5, "the returned cost is the cost of the returned state");
}
// ------------------------------------------------------------------ CSV
namespace
{
std::string dec(std::int64_t v)
{
    std::string s;
    const bool  neg = v < 0;
    std::uint64_t u = neg ? 0 - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v);
    do
        s.insert(s.begin(), static_cast<char>('0' + u % 10)), u /= 10;
    while (u);
    return neg ? "-" + s : s;
}
}  // namespace
VX_ENTRY(csv)
{
    std::ostringstream os;
    csv_writer         w{os};
    const int          a = static_cast<int>(vx_irange("a", -120, 120));
    const auto         b = static_cast<unsigned>(vx_range("b", 0, 1000));
    const char         c = static_cast<char>(vx_u8("c"));
    const bool         f = vx_bool("f");
    const std::string  s(static_cast<std::size_t>(vx_concretize(vx_range("len", 0, 3))), 's');
    std::string        want;
    const auto         kind = vx_concretize(vx_range("kind", 0, 4));
    switch (kind)
    {
        case 0: w.write_line(); want = "\n"; break;
        case 1: w.write_line(a); want = dec(a) + "\n"; break;
        case 2: w.write_line(a, s); want = dec(a) + "," + s + "\n"; break;
        case 3: w.write_line(s, b, c); want = s + "," + dec(b) + "," + std::string(1, c) + "\n"; break;
        default: w.write_line(f, s, "lit", c, a); want = std::string(f ? "1" : "0") + "," + s + ",lit," + std::string(1, c) + "," + dec(a) + "\n"; break;
    }
    w.write_line("end", s);
    want += "end," + s + "\n";
    vx_check(os.str() == want, "one line per call with comma-separated fields in order");
}
