// Orthogonal physical design of small networks.
#include "lyt_check.h"
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/types.hpp>

using namespace fiction;
using namespace nets;

namespace
{
using LYT = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;

template <typename Src>
void ortho_case(const spec& s)
{
    const auto                        n = make<Src>(s);
    orthogonal_physical_design_params ps{pick("phases", 0, 1) ? num_clks::THREE : num_clks::FOUR};
    orthogonal_physical_design_stats  st{};
    LYT                               lyt{};
    bool                              high = false, thrown = false;
    for (auto g : n.nodes)
    {
        unsigned real = 0;
        n.ntk.foreach_fanin(g, [&](const auto& f) { real += !n.ntk.is_constant(f); });
        high = high || real > 2;
    }
    try
    {
        lyt = orthogonal<LYT>(n.ntk, ps, &st);
    }
    catch (const high_degree_fanin_exception&)
    {
        thrown = true;
    }
    vx_check(thrown == high, "exactly networks of gates with too many fanins are rejected");
    if (thrown)
        return;
    check_wellformed(lyt);
    vx_check(lyt.is_clocking_scheme(clock_name::TWODDWAVE) && lyt.num_clocks() == (ps.number_of_clock_phases == num_clks::THREE ? 3 : 4), "the layout is 2DDWave-clocked with the given number of phases");
    check_same_function(n, lyt, used_bits(n));
    bool     ok = true;
    unsigned k  = 0;
    for (std::size_t i = 0; i < n.pis.size(); ++i)
        if (n.ntk.fanout_size(n.pis[i]) > 0)
        {
            ok = ok && lyt.get_name(lyt.pi_at(k)) == "in" + std::to_string(i);
            ++k;
        }
    vx_check(ok, "inputs keep their names");
    ok = true;
    for (unsigned i = 0; i < n.outs.size(); ++i)
        ok = ok && lyt.get_output_name(i) == "out" + std::to_string(i);
    vx_check(ok, "outputs keep their names");
    ok = true;
    lyt.foreach_pi([&](const auto& p) { ok = ok && lyt.is_at_western_border(lyt.get_tile(p)); });
    lyt.foreach_po([&](const auto& p) { ok = ok && lyt.is_at_eastern_border(lyt.get_tile(lyt.get_node(p))); });
    vx_check(ok, "inputs and outputs lie at the borders");
    vx_check(st.x_size == lyt.x() + 1 && st.y_size == lyt.y() + 1 && st.num_gates == lyt.num_gates() && st.num_wires == lyt.num_wires() && st.num_crossings == lyt.num_crossings(), "statistics describe the layout");
    vx_reach("placed");
}
}  // namespace

VX_ENTRY(or_two)
{
    ortho_case<NAM>({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << NOT | 1u << BUF | 1u << AND | 1u << LT | 1u << GE, .distinct = true});
}
VX_ENTRY(or_three)
{
    ortho_case<NAM>({.max_pi = VX_B(2u, 3u), .gates = 3, .pos = 2, .types = VX_B(1u << NOT | 1u << LT, 1u << NOT | 1u << LT | 1u << AND), .distinct = true});
}
VX_ENTRY(or_four)
{
    ortho_case<NAM>({.min_pi = 2, .max_pi = 2, .gates = 4, .pos = VX_B(1u, 2u), .types = VX_B(1u << AND, 1u << AND | 1u << NOT), .free_pi = false, .distinct = true});
}
VX_ENTRY(or_inputs)
{
    ortho_case<NAM>({.min_pi = 3, .max_pi = 3, .gates = VX_B(2u, 3u), .pos = 3, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
}
VX_ENTRY(or_const)
{
    ortho_case<NAM>({.max_pi = 2, .gates = 2, .pos = 1, .types = 1u << MAJ | 1u << NOT, .constants = true, .distinct = true});
}
VX_ENTRY(or_const_other)
{
    ortho_case<NAM>({.max_pi = 2, .gates = 1, .pos = 1, .types = 1u << ITE, .constants = true, .distinct = true});
}
VX_ENTRY(or_duplicate)
{
    ortho_case<NAM>({.max_pi = 1, .gates = 1, .pos = 1, .types = 1u << AND});
}
