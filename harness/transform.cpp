// Transformations of gate-level layouts.
#include "lyt_check.h"
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/types.hpp>

using namespace fiction;
using namespace nets;

namespace
{
using LYT = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using HEX = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>>;

template <typename Lyt>
void check_pins(const net<NAM>& n, const Lyt& l)
{
    bool     ok = true;
    unsigned k  = 0;
    for (std::size_t i = 0; i < n.pis.size(); ++i)
        if (n.ntk.fanout_size(n.pis[i]) > 0)
            ok = ok && l.get_name(l.pi_at(k++)) == "in" + std::to_string(i);
    vx_check(ok, "inputs keep their names");
    ok = true;
    for (unsigned i = 0; i < n.outs.size(); ++i)
        ok = ok && l.get_output_name(i) == "out" + std::to_string(i);
    vx_check(ok, "outputs keep their names");
}
void hex_case(const spec& s)
{
    const auto             n = make<NAM>(s);
    const auto             l = orthogonal<LYT>(n.ntk);
    hexagonalization_params ps{};
    using mode              = hexagonalization_params::io_pin_extension_mode;
    const mode     modes[]  = {mode::NONE, mode::EXTEND, mode::EXTEND_PLANAR};
    ps.input_pin_extension  = modes[pick("extend_inputs", 0, 2)];
    ps.output_pin_extension = modes[pick("extend_outputs", 0, 2)];
    hexagonalization_stats st{};
    HEX                    h{};
    bool                   thrown = false;
    try
    {
        h = hexagonalization<HEX>(l, ps, &st);
    }
    catch (const hexagonalization_io_pin_routing_error&)
    {
        thrown = true;
    }
    vx_check(!thrown || ps.input_pin_extension == mode::EXTEND_PLANAR || ps.output_pin_extension == mode::EXTEND_PLANAR, "only planar extension of pins may fail");
    if (thrown)
        return;
    vx_check(h.is_clocking_scheme(clock_name::ROW), "the layout is clocked by rows");
    check_wellformed(h);
    check_same_function(n, h, used_bits(n));
    check_pins(n, h);
    bool top = true, bottom = true;
    h.foreach_pi([&](const auto& p) { top = top && h.get_tile(p).y == 0; });
    h.foreach_po([&](const auto& p) { bottom = bottom && h.get_tile(h.get_node(p)).y == h.y(); });
    vx_check(top || ps.input_pin_extension == mode::NONE, "extended inputs lie at the top");
    vx_check(bottom || ps.output_pin_extension == mode::NONE, "extended outputs lie at the bottom");
    vx_check(h.num_gates() == l.num_gates(), "gates are neither added nor removed");
    vx_check(st.x_size == h.x() + 1 && st.y_size == h.y() + 1 && st.num_gates == h.num_gates() && st.num_wires == h.num_wires() && st.num_crossings == h.num_crossings(), "statistics describe the layout");
    vx_reach("hexagonalized");
}
}  // namespace

VX_ENTRY(tf_hex)
{
    hex_case({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << NOT | 1u << AND | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(tf_hex_three)
{
    hex_case({.min_pi = 3, .max_pi = 3, .gates = 2, .pos = VX_B(2u, 3u), .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(tf_hex_gates)
{
    hex_case({.min_pi = 2, .max_pi = 2, .gates = 3, .pos = 1, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
}

namespace
{
void wiring_case(const spec& s)
{
    const auto n = make<NAM>(s);
    const auto l = orthogonal<LYT>(n.ntk);
    const std::uint64_t w = l.num_wires(), g = l.num_gates(), x = l.x(), y = l.y();
    wiring_reduction_stats st{};
    wiring_reduction(l, {}, &st);
    check_wellformed(l);
    check_same_function(n, l, used_bits(n));
    check_pins(n, l);
    vx_check(l.x() <= x && l.y() <= y && l.num_wires() <= w, "the layout does not grow");
    vx_check(l.num_gates() == g, "gates are neither added nor removed");
    vx_check(l.is_clocking_scheme(clock_name::TWODDWAVE), "the clocking remains");
    const auto io = l.num_pis() + l.num_pos();
    vx_check(st.x_size_before == x + 1 && st.y_size_before == y + 1 && st.num_wires_before == w - io && st.x_size_after == l.x() + 1 && st.y_size_after == l.y() + 1 && st.num_wires_after == l.num_wires() - io, "statistics describe the layouts");
    bool pins = true;
    l.foreach_pi([&](const auto& p) { pins = pins && (l.get_tile(p).x == 0 || l.get_tile(p).y == 0); });
    l.foreach_po([&](const auto& p) { const auto t = l.get_tile(l.get_node(p)); pins = pins && (t.x == l.x() || t.y == l.y()); });
    vx_check(pins, "inputs and outputs stay at the borders");
    vx_reach("reduced");
}
void plo_case(const spec& s)
{
    const auto n = make<NAM>(s);
    const auto l = orthogonal<LYT>(n.ntk);
    const std::uint64_t w = l.num_wires(), g = l.num_gates(), x = l.x(), y = l.y();
    const auto c = l.num_crossings();
    post_layout_optimization_params ps{};
    const auto mode = pick("mode", 0, 4);
    if (mode == 1)
        ps.optimize_pos_only = true;
    else if (mode == 2)
        ps.planar_optimization = true;
    else if (mode > 2)
        ps.max_gate_relocations = mode == 3 ? 0 : 2;
    post_layout_optimization_stats st{};
    post_layout_optimization(l, ps, &st);
    check_wellformed(l);
    check_same_function(n, l, used_bits(n));
    check_pins(n, l);
    vx_check((l.x() + 1) * (l.y() + 1) <= (x + 1) * (y + 1), "the layout does not grow");
    vx_check(l.num_gates() == g, "gates are neither added nor removed");
    vx_check(l.is_clocking_scheme(clock_name::TWODDWAVE), "the clocking remains");
    vx_check(mode != 2 || l.num_crossings() <= c, "planar optimization adds no crossings");
    vx_check(st.x_size_before == x + 1 && st.y_size_before == y + 1 && st.num_wires_before == w - l.num_pis() - l.num_pos() && st.x_size_after == l.x() + 1 && st.y_size_after == l.y() + 1 && st.num_wires_after == l.num_wires() - l.num_pis() - l.num_pos() && st.num_crossings_before == c && st.num_crossings_after == l.num_crossings(), "statistics describe the layouts");
    bool pins = true;
    l.foreach_pi([&](const auto& p) { pins = pins && (l.get_tile(p).x == 0 || l.get_tile(p).y == 0); });
    l.foreach_po([&](const auto& p) { const auto t = l.get_tile(l.get_node(p)); pins = pins && (t.x == l.x() || t.y == l.y()); });
    vx_check(pins, "inputs and outputs stay at the borders");
    vx_reach("optimized");
}
}  // namespace
VX_ENTRY(tf_wiring)
{
    wiring_case({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << NOT | 1u << AND | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(tf_optimize)
{
    plo_case({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << NOT | 1u << AND | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(tf_wiring_three)
{
    wiring_case({.min_pi = 2, .max_pi = VX_B(2u, 3u), .gates = 3, .pos = 2, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(tf_optimize_gates)
{
    plo_case({.min_pi = 2, .max_pi = 2, .gates = 3, .pos = 1, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(tf_optimize_inputs)
{
    plo_case({.min_pi = 3, .max_pi = 3, .gates = 2, .pos = VX_B(1u, 2u), .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
}
