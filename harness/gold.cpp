// Graph-oriented layout design.
#include "lyt_check.h"
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/types.hpp>

using namespace fiction;
using namespace nets;

namespace
{
using LYT = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using P   = graph_oriented_layout_design_params;

void gold_case(const spec& s, P ps)
{
    const auto n = make<NAM>(s);
    ps.seed      = 1;
    graph_oriented_layout_design_stats st{};
    auto       ntk = n.ntk;
    const auto r = graph_oriented_layout_design<LYT>(ntk, ps, &st);
    vx_check(r.has_value(), "a layout is found");
    if (!r.has_value())
        return;
    const auto& l = *r;
    check_wellformed(l);
    check_same_function(n, l, used_bits(n));
    check_names(n, l);
    vx_check(l.is_clocking_scheme(clock_name::TWODDWAVE), "the layout is clocked by 2DDWave");
    vx_check(st.x_size == l.x() + 1 && st.y_size == l.y() + 1 && st.num_gates == l.num_gates() && st.num_wires == l.num_wires() && st.num_crossings == l.num_crossings(), "statistics describe the layout");
    bool pins = true;
    l.foreach_pi([&](const auto& p) { pins = pins && (l.get_tile(p).x == 0 || l.get_tile(p).y == 0); });
    l.foreach_po([&](const auto& p) { const auto t = l.get_tile(l.get_node(p)); pins = pins && (t.x == l.x() || t.y == l.y()); });
    vx_check(pins, "inputs and outputs lie at the borders");
    bool straight = true;
    l.foreach_node(
        [&](const auto& m)
        {
            if (l.is_constant(m) || !l.is_inv(m))
                return;
            const auto t = l.get_tile(m);
            for (const auto& i : l.incoming_data_flow(t))
                for (const auto& o : l.outgoing_data_flow(t))
                    straight = straight && ((i.x == t.x && o.x == t.x) || (i.y == t.y && o.y == t.y));
        });
    vx_check(!ps.straight_inverters || straight, "inverters are straight if asked for");
    const auto skip  = ps.randomize_tiles_to_skip_between_pis ? 0 : ps.tiles_to_skip_between_pis;
    bool       apart = true;
    l.foreach_pi(
        [&](const auto& p)
        {
            l.foreach_pi(
                [&](const auto& q)
                {
                    const auto a = l.get_tile(p), b = l.get_tile(q);
                    apart = apart && (!(a.y == 0 && b.y == 0 && a.x < b.x) || b.x - a.x > skip) && (!(a.x == 0 && b.x == 0 && a.y < b.y) || b.y - a.y > skip);
                });
        });
    vx_check(apart, "tiles between inputs are skipped");
    vx_check(!ps.planar || l.num_crossings() == 0, "planar layouts have no crossings");
    vx_reach("designed");
}
}  // namespace

VX_ENTRY(gd_first)
{
    // the first layout found
    P ps{};
    ps.mode                  = pick("high_effort", 0, 1) ? P::effort_mode::HIGH_EFFORT : P::effort_mode::HIGH_EFFICIENCY;
    ps.return_first          = true;
    ps.num_vertex_expansions = 2;
    gold_case({.max_pi = 2, .gates = 2, .pos = 2, .types = VX_B(1u << NOT | 1u << LT, 1u << NOT | 1u << AND | 1u << LT), .free_pi = false, .distinct = true}, ps);
}
VX_ENTRY(gd_three)
{
    P ps{};
    ps.mode                  = P::effort_mode::HIGH_EFFORT;
    ps.return_first          = true;
    ps.num_vertex_expansions = 3;
    gold_case({.min_pi = 3, .max_pi = 3, .gates = 2, .pos = 1, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true}, ps);
}
VX_ENTRY(gd_best)
{
    P ps{};
    const P::cost_objective costs[] = {P::cost_objective::AREA, P::cost_objective::WIRES, P::cost_objective::CROSSINGS, P::cost_objective::ACP};
    ps.mode                  = P::effort_mode::HIGH_EFFICIENCY;
    ps.cost                  = costs[pick("cost", 0, 3)];
    ps.num_vertex_expansions = 2;
    gold_case({.max_pi = 2, .gates = 1, .pos = 2, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true}, ps);
}
VX_ENTRY(gd_options)
{
    P          ps{};
    const auto m             = pick("option", 0, 3);
    ps.mode                  = P::effort_mode::HIGH_EFFORT;
    ps.return_first          = true;
    ps.num_vertex_expansions = 3;
    ps.planar                = m == 0;
    ps.straight_inverters    = m == 1;
    ps.tiles_to_skip_between_pis = m >= 2 ? 1 : 0;
    ps.randomize_tiles_to_skip_between_pis = m == 3;
    gold_case({.max_pi = 2, .gates = 2, .pos = 1, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true}, ps);
}
VX_ENTRY(gd_effort)
{
    // all search graphs
    P ps{};
    ps.mode                  = pick("maximum", 0, 1) ? P::effort_mode::MAXIMUM_EFFORT : P::effort_mode::HIGHEST_EFFORT;
    ps.return_first          = true;
    ps.num_vertex_expansions = 1;
    gold_case({.max_pi = 2, .gates = 1, .pos = 2, .types = 1u << LT, .free_pi = false, .distinct = true}, ps);
}
VX_ENTRY(gd_custom)
{
    const auto n = make<NAM>({.max_pi = 2, .gates = 1, .pos = 1, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
    P          ps{};
    ps.mode = P::effort_mode::HIGH_EFFICIENCY;
    ps.cost = P::cost_objective::CUSTOM;
    ps.seed = 1;
    auto ntk    = n.ntk;
    bool thrown = false;
    try
    {
        (void)graph_oriented_layout_design<LYT>(ntk, ps);
    }
    catch (const std::invalid_argument&)
    {
        thrown = true;
    }
    vx_check(thrown, "custom costs need a function");
    // the returned layout has the least cost of all complete ones
    std::uint64_t least = ~0ull;
    const std::function<std::uint64_t(const LYT&)> cost = [](const LYT& l) { return 100 - l.num_wires() + l.x(); };
    const std::function<std::uint64_t(const LYT&)> noted = [&](const LYT& l)
    {
        const auto c = cost(l);
        if (l.num_pos() == n.outs.size() && c < least)
            least = c;
        return c;
    };
    const auto r = graph_oriented_layout_design<LYT>(ntk, ps, nullptr, noted);
    vx_check(r.has_value(), "a layout is found");
    check_wellformed(*r);
    check_same_function(n, *r, used_bits(n));
    vx_check(cost(*r) == least, "the best layout that was found is returned");
    vx_reach("custom");
}
VX_ENTRY(gd_refused)
{
    auto n      = make<NAM>({.min_pi = 3, .max_pi = 3, .gates = 1, .pos = 1, .types = 1u << MAJ, .free_pi = false, .distinct = true});
    bool thrown = false;
    try
    {
        (void)graph_oriented_layout_design<LYT>(n.ntk);
    }
    catch (const high_degree_fanin_exception&)
    {
        thrown = true;
    }
    vx_check(thrown, "gates of three inputs are refused");
    vx_reach("refused");
}
