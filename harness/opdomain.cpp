// Operational domains: the exploration of parameter spaces, with gates whose status at each point is arbitrary.
#include "charge_model.h"
#include <kitty/dynamic_truth_table.hpp>
#include <kitty/traits.hpp>
#include <mutex>
#include <random>
// random choices are arbitrary ones
template <>
template <>
inline std::uint64_t std::uniform_int_distribution<std::uint64_t>::operator()(std::mt19937_64& g)
{
    (void)g();
    return a() + vx_concretize(vx_range("choice", 0, b() - a()));
}
#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/is_operational.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain_ratio.hpp>
#include <fiction/algorithms/simulation/sidb/physically_valid_parameters.hpp>
// a specification that stands for any function: whether the gate is operational is decided by the oracle below
namespace kitty
{
struct vx_spec
{
    std::uint64_t num_vars() const { return 1; }
    std::uint64_t num_bits() const { return 2; }
};
template <>
struct is_truth_table<vx_spec> : std::true_type
{};
}  // namespace kitty
namespace
{
using ct = sidb_technology::cell_type;
using TT = kitty::dynamic_truth_table;
using OS = operational_status;
using SP = sweep_parameter;
using SX = std::vector<kitty::vx_spec>;
constexpr auto EPS = SP::EPSILON_R, LAM = SP::LAMBDA_TF, MU = SP::MU_MINUS;
// three pairs and a canvas dot
L gate(bool canvas = true)
{
    L          l{};
    const auto put = [&](int x, int y, ct t) { l.assign_cell_type(SC{x, y, 0}, t); };
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 2; ++k)
            put(6 * i + 2 * k, 2 * i + k, i == 0 ? ct::INPUT : i == 1 ? ct::NORMAL : ct::OUTPUT);
    if (canvas)
        put(13, 6, ct::LOGIC);
    return l;
}
// the parameter space and the status of its points
struct space
{
    int                       dims = 0, size[3]{1, 1, 1};
    std::vector<double>       at[3];
    SP                        what[3]{};
    operational_domain_params p{};
    int                       known[64], calls[64], sims = 0, first = -1, temp[64];
    bool                      params_ok = true;
    space()
    {
        for (auto& k : known)
            k = -1;
        for (auto& k : temp)
            k = -1;
        for (auto& k : calls)
            k = 0;
        p.sweep_dimensions.clear();
        p.number_of_threads                        = 1;
        p.operational_params.simulation_parameters = sidb_simulation_parameters{2, -0.28, 5.5, 4.5};
        p.operational_params.op_condition          = is_operational_params::operational_condition::REJECT_KINKS;
    }
    void sweep(SP w, double min, double max, double step)
    {
        what[dims] = w;
        for (int i = 0; min + i * step <= max + 1e-7; ++i)
            at[dims].push_back(min + i * step);
        size[dims] = static_cast<int>(at[dims].size());
        ++dims;
        p.sweep_dimensions.push_back(operational_domain_value_range{.dimension = w, .min = min, .max = max, .step = step});
    }
    int total() const { return size[0] * size[1] * size[2]; }
    // index of a point, or -1
    int find(const std::vector<double>& v) const
    {
        if (static_cast<int>(v.size()) != dims)
            return -1;
        int r = 0, m = 1;
        for (int d = 0; d < dims; ++d)
        {
            int k = -1;
            for (int i = 0; i < size[d]; ++i)
                if (std::abs(at[d][static_cast<unsigned>(i)] - v[static_cast<unsigned>(d)]) < 1e-9)
                    k = i;
            if (k < 0)
                return -1;
            r += m * k;
            m *= size[d];
        }
        return r;
    }
    int find(const sidb_simulation_parameters& s) const
    {
        std::vector<double> v;
        bool                e = false, l = false, m = false;
        for (int d = 0; d < dims; ++d)
        {
            v.push_back(what[d] == EPS ? s.epsilon_r : what[d] == LAM ? s.lambda_tf : s.mu_minus);
            (what[d] == EPS ? e : what[d] == LAM ? l : m) = true;
        }
        const auto& b = p.operational_params.simulation_parameters;
        if ((!e && s.epsilon_r != b.epsilon_r) || (!l && s.lambda_tf != b.lambda_tf) || (!m && s.mu_minus != b.mu_minus) || s.base != b.base)
            return -1;
        return find(v);
    }
    std::vector<double> values(int i) const
    {
        std::vector<double> v;
        for (int d = 0; d < dims; ++d)
        {
            v.push_back(at[d][static_cast<unsigned>(i % size[d])]);
            i /= size[d];
        }
        return v;
    }
    int coord(int i, int d) const { return d == 0 ? i % size[0] : d == 1 ? i / size[0] % size[1] : i / size[0] / size[1]; }
    bool op(int i)
    {
        if (known[i] < 0)
            known[i] = vx_concretize(vx_range("operational", 0, 1)) != 0;
        return known[i] != 0;
    }
    // at most one step apart in each dimension, in at most `m` of them
    bool touch(int i, int j, int m = 3) const
    {
        int n = 0;
        for (int d = 0; d < 3; ++d)
        {
            const int k = coord(i, d) - coord(j, d);
            if (k > 1 || k < -1)
                return false;
            n += k != 0;
        }
        return n > 0 && n <= m;
    }
    // operational points connected with i, those on the border of the space or next to a point that is not operational
    std::vector<bool> reach(int i, bool border_only, int without = -1)
    {
        std::vector<bool> r(static_cast<unsigned>(total()));
        std::vector<int>  q{i};
        r[static_cast<unsigned>(i)] = true;
        while (!q.empty())
        {
            const int k = q.back();
            q.pop_back();
            for (int j = 0; j < total(); ++j)
                if (!r[static_cast<unsigned>(j)] && j != without && touch(k, j) && op(j) && (!border_only || border(j)))
                {
                    r[static_cast<unsigned>(j)] = true;
                    q.push_back(j);
                }
        }
        return r;
    }
    bool border(int i)
    {
        bool r = false;
        for (int d = 0; d < dims; ++d)
            r |= coord(i, d) == 0 || coord(i, d) == size[d] - 1;
        for (int j = 0; !r && j < total(); ++j)
            r |= touch(i, j) && !op(j);
        return r;
    }
};
space*     sp = nullptr;
std::mutex asking;  // the oracle is asked by several threads
// what is asked about the gate
template <typename Lyt, typename W>
int asked(const std::vector<Lyt>& in, const SX& spec, const is_operational_params& p, const W& iw, const W& ow)
{
    const int i = sp->find(p.simulation_parameters);
    sp->params_ok &= i >= 0 && in.size() == 2 && spec.size() == 1 && iw.size() == 1 && ow.size() == 1 && p.op_condition == sp->p.operational_params.op_condition && p.sim_engine == sp->p.operational_params.sim_engine && p.strategy_to_analyze_operational_status == sp->p.operational_params.strategy_to_analyze_operational_status;
    return i;
}
}  // namespace
namespace fiction
{
template <typename Lyt>
std::pair<operational_status, std::size_t> is_operational(const std::vector<Lyt>& in, const std::vector<kitty::vx_spec>& spec, const is_operational_params& p, const std::vector<bdl_wire<Lyt>>& iw, const std::vector<bdl_wire<Lyt>>& ow, const std::optional<Lyt>& canvas)
{
    const std::lock_guard lock{asking};
    const int             i = asked(in, spec, p, iw, ow);
    sp->params_ok &= canvas.has_value() && canvas->num_cells() == 1;
    if (i < 0)
        return {OS::NON_OPERATIONAL, 0};
    ++sp->calls[i];
    if (sp->first < 0)
        sp->first = i;
    sp->sims += 1 + i % 3;
    return {sp->op(i) ? OS::OPERATIONAL : OS::NON_OPERATIONAL, 1 + i % 3};
}
template <typename Lyt>
double critical_temperature_gate_based(const std::vector<Lyt>& in, const std::vector<kitty::vx_spec>& spec, const critical_temperature_params& p, const std::vector<bdl_pair<cell<Lyt>>>& out, const std::vector<bdl_wire<Lyt>>& iw, const std::vector<bdl_wire<Lyt>>& ow)
{
    const std::lock_guard lock{asking};
    const int             i = asked(in, spec, p.operational_params, iw, ow);
    sp->params_ok &= out.size() == 1;
    if (i < 0)
        return -1.0;
    if (sp->temp[i] < 0)
        sp->temp[i] = static_cast<int>(vx_concretize(vx_range("temperature", 0, 2)));
    return sp->temp[i] * 100.0;
}
}  // namespace fiction
namespace
{
// the points listed are points of the space with their status, evaluated once each, and the statistics count them
std::vector<bool> check_domain(const operational_domain& r, space& s, const operational_domain_stats& st)
{
    std::vector<bool> in(static_cast<unsigned>(s.total()));
    unsigned          n = 0, ops = 0;
    bool              points = true, status = true, once = true, found = true;
    r.for_each(
        [&](const auto& pp, const auto& v)
        {
            const int i = s.find(pp.get_parameters());
            points &= i >= 0 && !in[static_cast<unsigned>(i)];
            if (i < 0)
                return;
            in[static_cast<unsigned>(i)] = true;
            ++n;
            ops += std::get<0>(v) == OS::OPERATIONAL;
            status &= s.known[i] >= 0 && (s.known[i] != 0) == (std::get<0>(v) == OS::OPERATIONAL);
            const auto c = r.contains(pp);
            found &= c.has_value() && *c == v;
        });
    for (int i = 0; i < s.total(); ++i)
    {
        once &= s.calls[i] <= 1 && (s.calls[i] == 1) == in[static_cast<unsigned>(i)];
        found &= r.contains(parameter_point{s.values(i)}).has_value() == in[static_cast<unsigned>(i)];
    }
    vx_check(points, "the domain lists points of the parameter space");
    vx_check(status, "points have their status");
    vx_check(found, "points are found");
    vx_check(once, "every point is simulated at most once");
    vx_check(s.params_ok, "the gate is simulated with the parameters of the point");
    vx_check(r.size() == n && r.empty() == (n == 0) && static_cast<int>(r.get_number_of_dimensions()) == s.dims, "size of the domain");
    bool dims = true;
    for (int d = 0; d < s.dims; ++d)
        dims &= r.get_dimension(static_cast<unsigned>(d)) == s.what[d];
    vx_check(dims, "dimensions of the domain");
    vx_check(st.num_evaluated_parameter_combinations == n && st.num_operational_parameter_combinations == ops && st.num_non_operational_parameter_combinations == n - ops && static_cast<int>(st.num_total_parameter_points) == s.total() && static_cast<int>(st.num_simulator_invocations) == s.sims, "statistics");
    return in;
}
unsigned count(const std::vector<bool>& v)
{
    unsigned n = 0;
    for (const auto b : v)
        n += b;
    return n;
}
unsigned pickn(const char* n, unsigned lo, unsigned hi)
{
    return static_cast<unsigned>(vx_concretize(vx_range(n, lo, hi)));
}
const SX ANY{kitty::vx_spec{}};
}  // namespace
VX_ENTRY(od_grid)
{
    // every point of the space, whatever ranges, steps and number of threads
    static const struct
    {
        double min, max, step;
    } R[6]{{4.0, 5.0, 0.5}, {4.0, 4.7, 0.3}, {4.0, 4.8, 0.3}, {3.1, 3.1, 0.2}, {1.0, 2.1, 0.9}, {5.0, 5.2, 0.5}};
    space      s;
    sp              = &s;
    vx_thread_order = 2;
    switch (pickn("dims", 0, 4))
    {
        case 0: s.sweep(MU, -0.3, -0.1, 0.1); break;
        case 1:
        {
            const auto& a = R[pickn("range", 0, 5)];
            s.sweep(EPS, a.min, a.max, a.step);
            break;
        }
        case 2:
        {
            const auto& a = R[pickn("range", 0, 5)];
            s.sweep(LAM, a.min, a.max, a.step);
            s.sweep(EPS, 5.0, 5.5, 0.5);
            break;
        }
        case 3:
            s.sweep(MU, -0.3, -0.2, 0.1);
            s.sweep(EPS, 5.0, 5.5, 0.5);
            s.sweep(LAM, 5.0, 5.0, 1.0);
            break;
        default:
            s.sweep(LAM, 4.0, 4.2, 0.2);
            s.sweep(MU, -0.3, -0.3, 0.1);
            break;
    }
    for (int i = 0; i < s.total(); ++i)
        s.known[i] = i < VX_B(3, 5) ? -1 : i % 2;
    if (s.dims == 3)
        s.p.number_of_threads = pickn("threads", 0, VX_B(2, 3));
    operational_domain_stats st{};
    const auto               r  = operational_domain_grid_search(gate(), ANY, s.p, &st);
    const auto               in = check_domain(r, s, st);
    vx_check(static_cast<int>(count(in)) == s.total(), "a grid search visits every point");
}
VX_ENTRY(od_random)
{
    // at most as many points as samples
    space s;
    sp              = &s;
    vx_thread_order = 2;
    s.sweep(EPS, 5.0, 5.5, 0.5);
    s.sweep(LAM, 4.0, 4.0 + pickn("columns", 0, 2), 1.0);
    s.p.number_of_threads = pickn("threads", 1, 2);
    const unsigned           n = pickn("samples", 0, VX_B(2, 3));
    operational_domain_stats st{};
    const auto               r  = operational_domain_random_sampling(gate(), ANY, n, s.p, &st);
    const auto               in = check_domain(r, s, st);
    vx_check(count(in) <= n && (n == 0 || count(in) > 0), "a point per sample at most");
}
VX_ENTRY(od_flood)
{
    // all operational points connected with one that was found, and their neighbours
    space s;
    sp              = &s;
    vx_thread_order = VX_B(0, 2) + 2 * static_cast<int>(pickn("order", 0, VX_B(1, 0)));
    s.sweep(EPS, 5.0, 6.0, 0.5);
    s.sweep(MU, -0.3, -0.3 + 0.1 * pickn("columns", 1, VX_B(1, 2)), 0.1);
    if (pickn("third", 0, 1) != 0)
        s.sweep(LAM, 4.0, 4.0, 1.0);
    s.p.number_of_threads = pickn("threads", 1, 2);
    const unsigned           n = pickn("samples", 0, VX_B(1, 2));
    operational_domain_stats st{};
    const auto               r   = operational_domain_flood_fill(gate(), ANY, n, s.p, &st);
    const auto               in  = check_domain(r, s, st);
    bool                     all = true;
    unsigned                 far = 0;
    for (int i = 0; i < s.total(); ++i)
    {
        bool next = false;
        for (int j = 0; j < s.total(); ++j)
            if (s.touch(i, j))
            {
                all &= !in[static_cast<unsigned>(i)] || !s.op(i) || in[static_cast<unsigned>(j)];
                next |= in[static_cast<unsigned>(j)] && s.op(j);
            }
        far += in[static_cast<unsigned>(i)] && !next && !s.op(i);
    }
    vx_check(all, "neighbours of operational points are explored");
    vx_check(far <= n, "other points are samples");
    bool found = false;
    for (int i = 0; i < s.total(); ++i)
        found |= in[static_cast<unsigned>(i)];
    vx_check(found == (n > 0), "samples are taken");
}
VX_ENTRY(od_ratio)
{
    // the share of operational points connected with a given one
    space s;
    sp = &s;
    s.sweep(EPS, 5.0, 6.0, 0.5);
    s.sweep(LAM, 4.0, 4.0 + pickn("columns", 1, VX_B(1, 2)), 1.0);
    const int  at = static_cast<int>(pickn("at", 0, static_cast<unsigned>(s.total()) - 1));
    const auto r  = operational_domain_ratio(gate(), ANY, parameter_point{s.values(at)}, operational_domain_ratio_params{.op_domain_params = s.p});
    const unsigned n = s.op(at) ? count(s.reach(at, false)) : 0;
    vx_check(std::abs(r - static_cast<double>(n) / s.total()) < 1e-12, "share of connected operational points");
    vx_check(s.params_ok, "the gate is simulated with the parameters of the point");
}
namespace
{
// the contour that the sample leads to
void check_contour(space& s, const std::vector<bool>& in, const std::vector<int>& samples, bool given, const std::vector<bool>& inferred)
{
    // a space without holes: all points that are not operational are connected with the outside
    std::vector<bool> out(static_cast<unsigned>(s.total()));
    for (bool more = true; more;)
    {
        more = false;
        for (int i = 0; i < s.total(); ++i)
        {
            if (out[static_cast<unsigned>(i)] || s.op(i))
                continue;
            bool o = false;
            for (int d = 0; d < s.dims; ++d)
                o |= s.coord(i, d) == 0 || s.coord(i, d) == s.size[d] - 1;
            for (int j = 0; j < s.total(); ++j)
                o |= s.touch(i, j, 1) && out[static_cast<unsigned>(j)];
            if (o)
                out[static_cast<unsigned>(i)] = more = true;
        }
    }
    bool holes = false;
    for (int i = 0; i < s.total(); ++i)
        holes |= !s.op(i) && !out[static_cast<unsigned>(i)];
    bool walked = true, contour = true, inside = true, sure = true, seen = true;
    for (const int f : samples)
    {
        seen &= in[static_cast<unsigned>(f)];
        if (!s.op(f))
            continue;
        // straight to the left up to the border
        int b = f;
        while (s.coord(b, 0) > 0 && s.op(b - 1))
            --b;
        for (int k = f; given && k >= b; --k)
            walked &= in[static_cast<unsigned>(k)];
        walked &= !given || s.coord(b, 0) == 0 || in[static_cast<unsigned>(b - 1)];
        const auto reg = s.reach(b, false);
        sure &= !holes;
        if (holes)
            continue;
        const auto edge = s.dims == 2 ? reg : s.reach(b, true);
        for (int i = 0; i < s.total(); ++i)
        {
            bool border = s.dims > 2;
            for (int d = 0; s.dims == 2 && d < 2; ++d)
                border |= s.coord(i, d) == 0 || s.coord(i, d) == s.size[d] - 1;
            for (int j = 0; !border && j < s.total(); ++j)
                border |= s.touch(i, j, 1) && !s.op(j);
            if (edge[static_cast<unsigned>(i)] && border)
                contour &= in[static_cast<unsigned>(i)] || !given;
        }
    }
    for (int i = 0; i < s.total(); ++i)
        if (inferred[static_cast<unsigned>(i)])
            inside &= (s.known[i] != 0 || !in[static_cast<unsigned>(i)]) && (!sure || s.op(i));
    vx_check(seen, "samples are evaluated");
    vx_check(walked, "the contour is looked for from the sample on");
    vx_check(contour, "the contour is traced");
    vx_check(inside, "points inside of the contour are operational");
}
void trace(space& s, unsigned n)
{
    operational_domain_stats                                               st{};
    const auto                                                             l = gate();
    detail::operational_domain_impl<L, kitty::vx_spec, operational_domain> p{l, ANY, s.p, st};
    const auto        r  = p.contour_tracing(n);
    const auto        in = check_domain(r, s, st);
    std::vector<bool> inferred(static_cast<unsigned>(s.total()));
    bool              points = true;
    for (const auto& q : p.inferred_operational_parameter_points())
    {
        const int i = s.find(q.get_parameters());
        points &= i >= 0 && !inferred[static_cast<unsigned>(i)];
        if (i >= 0)
            inferred[static_cast<unsigned>(i)] = true;
    }
    vx_check(points, "inferred points are points of the space");
    // one sample is the point evaluated first, otherwise any of them may have been a sample
    std::vector<int> samples;
    for (int i = 0; i < s.total(); ++i)
        if (n == 1 ? i == s.first : in[static_cast<unsigned>(i)] && s.op(i))
            samples.push_back(i);
    check_contour(s, in, samples, n == 1, inferred);
}
}  // namespace
VX_ENTRY(od_contour)
{
    // the outline of a domain in two dimensions
    space s;
    sp = &s;
    s.sweep(EPS, 5.0, 6.0, 0.5);
    s.sweep(LAM, 4.0, 4.0 + pickn("rows", 1, VX_B(2, 2)), 1.0);
    trace(s, 1);
}
VX_ENTRY(od_contour_wide)
{
    space s;
    sp = &s;
    s.sweep(MU, -0.4, -0.1, 0.1);
    s.sweep(LAM, 4.0, 4.0 + VX_B(1, 2), 1.0);
    trace(s, 1);
}
VX_ENTRY(od_contour_two)
{
    // two samples, of which the second may lie inside of the first contour
    space s;
    sp = &s;
    s.sweep(EPS, 5.0, VX_B(5.5, 6.0), 0.5);
    s.sweep(LAM, 4.0, 6.0, 1.0);
    trace(s, 2);
}
VX_ENTRY(od_surface)
{
    // the surface of a domain in three dimensions, with up to four gaps
    space s;
    sp = &s;
    s.sweep(EPS, 5.0, 6.0, 0.5);
    s.sweep(LAM, 4.0, 6.0, 1.0);
    s.sweep(MU, -0.3, pickn("deep", 0, 1) != 0 ? -0.1 : -0.2, 0.1);
    for (int i = 0; i < s.total(); ++i)
        s.known[i] = 1;
    s.known[s.total() / 2] = -1;
    s.known[0] = s.known[1] = s.known[4] = VX_B(1, -1);
    s.known[s.total() - 5] = -1;
    s.known[3]             = -1;
    trace(s, 1);
}
VX_ENTRY(od_temperature)
{
    // the same with critical temperatures of operational points
    space s;
    sp = &s;
    s.sweep(EPS, 5.0, 5.5, 0.5);
    s.sweep(LAM, 4.0, 5.0, 1.0);
    operational_domain_stats  st{};
    const unsigned            how = pickn("how", 0, 3);
    const auto                l   = gate();
    const auto                r   = how == 0 ? critical_temperature_domain_grid_search(l, ANY, s.p, &st) : how == 1 ? critical_temperature_domain_random_sampling(l, ANY, 1, s.p, &st) : how == 2 ? critical_temperature_domain_flood_fill(l, ANY, 1, s.p, &st) : critical_temperature_domain_contour_tracing(l, ANY, 1, s.p, &st);
    bool                      ok  = true;
    double                    lo = std::numeric_limits<double>::infinity(), hi = 0.0;
    unsigned                  n  = 0, ops = 0;
    r.for_each(
        [&](const auto& pp, const auto& v)
        {
            const int  i = s.find(pp.get_parameters());
            const bool o = std::get<0>(v) == OS::OPERATIONAL;
            ok &= i >= 0 && s.calls[i] == 1 && (s.known[i] != 0) == o && std::get<1>(v) == (o ? s.temp[i] * 100.0 : 0.0);
            ++n;
            ops += o;
            if (o)
            {
                lo = std::min(lo, std::get<1>(v));
                hi = std::max(hi, std::get<1>(v));
            }
        });
    vx_check(ok && s.params_ok, "critical temperatures of operational points");
    vx_check(r.minimum_ct() == lo && r.maximum_ct() == hi, "lowest and highest critical temperature");
    vx_check(how != 0 || n == 4, "a grid search visits every point");
    vx_check(st.num_evaluated_parameter_combinations == n && st.num_operational_parameter_combinations == ops && st.num_non_operational_parameter_combinations == n - ops && st.num_total_parameter_points == 4, "statistics");
    vx_check(r.get_number_of_dimensions() == 2 && r.get_dimension(0) == EPS && r.get_dimension(1) == LAM, "dimensions of the domain");
}
VX_ENTRY(od_invalid)
{
    // what cannot be swept is refused
    space s;
    sp = &s;
    const unsigned dims = pickn("dims", 0, 2);
    bool           bad  = false;
    for (unsigned d = 0; d < dims; ++d)
    {
        const double min = 5.0, max = 4.5 + 0.5 * pickn("max", 0, 2), step = -0.5 + 0.5 * pickn("step", 0, 2);
        bad |= max < min || step <= 0.0;
        s.p.sweep_dimensions.push_back(operational_domain_value_range{.dimension = d == 0 ? EPS : LAM, .min = min, .max = max, .step = step});
        s.what[d] = d == 0 ? EPS : LAM;
        s.at[d]   = max > min ? std::vector<double>{min, max} : std::vector<double>{min};
        s.size[d] = static_cast<int>(s.at[d].size());
    }
    s.dims = static_cast<int>(dims);
    for (auto& k : s.known)
        k = 1;
    for (auto& k : s.temp)
        k = 1;
    const bool canvas = pickn("canvas", 0, 1) != 0, kinks = pickn("kinks", 0, 1) != 0, sketch = pickn("sketch", 0, 1) != 0;
    s.p.operational_params.op_condition = kinks ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    if (sketch)
        s.p.operational_params.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::FILTER_ONLY;
    const unsigned how = pickn("how", 0, 3), temp = pickn("temperature", 0, 1);
    bad |= dims < (how < 2 ? 1u : 2u) || (sketch && (!canvas || !kinks));
    bool       refused = false;
    const auto l       = gate(canvas);
    try
    {
        if (temp == 0)
            switch (how)
            {
                case 0: (void)operational_domain_grid_search(l, ANY, s.p); break;
                case 1: (void)operational_domain_random_sampling(l, ANY, 0, s.p); break;
                case 2: (void)operational_domain_flood_fill(l, ANY, 0, s.p); break;
                default: (void)operational_domain_contour_tracing(l, ANY, 0, s.p); break;
            }
        else
            switch (how)
            {
                case 0: (void)critical_temperature_domain_grid_search(l, ANY, s.p); break;
                case 1: (void)critical_temperature_domain_random_sampling(l, ANY, 0, s.p); break;
                case 2: (void)critical_temperature_domain_flood_fill(l, ANY, 0, s.p); break;
                default: (void)critical_temperature_domain_contour_tracing(l, ANY, 0, s.p); break;
            }
    }
    catch (const std::invalid_argument&)
    {
        refused = true;
    }
    vx_check(refused == bad, "sweeps are refused when they are invalid");
}
VX_ENTRY(od_points)
{
    // points closer than the margin of error are the same
    double v[2][2];
    bool   same = true;
    for (auto& r : v)
    {
        r[0] = 4.0 + 0.5e-6 * pickn("a", 0, 4) + 0.1e-6;
        r[1] = -0.3 + 0.1 * pickn("b", 0, 2);
    }
    for (int d = 0; d < 2; ++d)
        same &= std::llround(v[0][d] * 1e6) == std::llround(v[1][d] * 1e6);
    const unsigned        n = pickn("dims", 1, 2);
    const parameter_point a{{v[0][0], v[0][1]}}, b{n == 1 ? std::vector<double>{v[1][0]} : std::vector<double>{v[1][0], v[1][1]}};
    vx_check((a == b) == (same && n == 2) && (b == a) == (a == b), "points are compared by value");
    vx_check(!(a == b) || std::hash<parameter_point>{}(a) == std::hash<parameter_point>{}(b), "equal points have the same hash value");
    vx_check(a.get<0>() == v[0][0] && a.get<1>() == v[0][1] && b.get_parameters().size() == n, "coordinates of points");
    sidb_simulation_domain<parameter_point, int> m{};
    m.add_value(a, std::tuple{1});
    m.add_value(b, std::tuple{2});
    const auto ra = m.contains(a), rb = m.contains(b);
    vx_check(m.size() == (a == b ? 1u : 2u) && ra.has_value() && std::get<0>(*ra) == 1 && rb.has_value() && std::get<0>(*rb) == (a == b ? 1 : 2), "the first value of a point is kept");
}
VX_ENTRY(od_physical)
{
    // parameters for which a distribution of charges is physically valid, with the rank of its energy
    const std::vector<SC> dots{SC{0, 0, 0}, SC{3, 0, 1}, SC{5, 1, 0}};
    space                 s;
    vx_thread_order = 2;
    s.sweep(LAM, 1.0, 5.0, 4.0);
    s.sweep(MU, -0.4, -0.1, 0.15);
    s.p.number_of_threads              = pickn("threads", 1, 2);
    s.p.operational_params.sim_engine  = pickn("engine", 0, 1) != 0 ? sidb_simulation_engine::EXGS : sidb_simulation_engine::QUICKEXACT;
    CDS                     c{lay(dots), s.p.operational_params.simulation_parameters};
    int                     q[3];
    for (int i = 0; i < 3; ++i)
    {
        q[i] = static_cast<int>(pickn("charge", 0, 1)) - 1;
        c.assign_charge_state(dots[static_cast<unsigned>(i)], sidb_of(q[i]));
    }
    c.update_after_charge_change();
    const auto r    = physically_valid_parameters(c, s.p);
    bool       ok   = true, rank = true;
    unsigned   n    = 0;
    for (int i = 0; i < s.total(); ++i)
    {
        auto ps = s.p.operational_params.simulation_parameters;
        ps.lambda_tf = s.values(i)[0];
        ps.mu_minus  = s.values(i)[1];
        model               m{dots, ps};
        std::vector<double> e;
        bool                judged = true;
        const auto          set    = [&](const int* z)
        {
            for (int k = 0; k < m.n; ++k)
                for (unsigned j = 0; j < 3; ++j)
                    if (m.s[static_cast<unsigned>(k)] == dots[j])
                        m.q[k] = z[j];
        };
        for (int k = 0; k < 8; ++k)
        {
            const int z[3]{-(k & 1), -((k >> 1) & 1), -((k >> 2) & 1)};
            set(z);
            if (m.surely_valid(ps.mu_minus))
                e.push_back(m.energy());
            else
                judged &= m.surely_invalid(ps.mu_minus);
        }
        set(q);
        if (!judged)
            continue;
        const bool valid = m.surely_valid(ps.mu_minus);
        const auto v     = r.contains(parameter_point{s.values(i)});
        ok &= v.has_value() == valid;
        n += valid;
        if (!valid || !v.has_value())
            continue;
        // distinct lower energies
        std::sort(e.begin(), e.end());
        std::uint64_t lower = 0;
        for (unsigned k = 0; k < e.size(); ++k)
            lower += e[k] < m.energy() - 1e-6 && (k == 0 || e[k] - e[k - 1] > 1e-6);
        rank &= std::get<0>(*v) == lower;
    }
    vx_check(ok, "parameters are listed when the distribution is physically valid");
    vx_check(rank, "the rank counts lower energies");
    vx_check(r.size() >= n, "size of the domain");
}
VX_ENTRY(od_real)
{
    // a real gate, whose status at each point is its status under these parameters
    L l{};
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 2; ++k)
            l.assign_cell_type(SC{i + 2 * k, 4 * i + k, 0}, i == 0 ? ct::INPUT : i == 1 ? ct::NORMAL : ct::OUTPUT);
    l.assign_cell_type(SC{13, 6, 0}, ct::NORMAL);
    TT             f{1};
    const unsigned fn = pickn("function", 1, 2);
    for (unsigned k = 0; k < 2; ++k)
        if ((fn >> k) & 1u)
            kitty::set_bit(f, k);
    space s;
    s.p.operational_params.op_condition = is_operational_params::operational_condition::TOLERATE_KINKS;
    s.sweep(MU, -0.3, -0.1, 0.2);
    s.sweep(LAM, 1.0, 5.0, 4.0);
    const std::vector<TT>    spec{f};
    operational_domain_stats st{};
    const auto               r  = operational_domain_grid_search(l, spec, s.p, &st);
    bool                     ok = r.size() == 4;
    for (int i = 0; i < 4; ++i)
    {
        auto ps                            = s.p.operational_params;
        ps.simulation_parameters.mu_minus  = s.values(i)[0];
        ps.simulation_parameters.lambda_tf = s.values(i)[1];
        const auto v                       = r.contains(parameter_point{s.values(i)});
        ok &= v.has_value() && std::get<0>(*v) == is_operational(l, spec, ps).first;
    }
    vx_check(ok, "status of a real gate at every point");
}
