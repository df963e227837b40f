// Structural validity of gate-level layouts.
#pragma once
#include "vx.h"

namespace nets
{
// the layout is a valid circuit: every signal runs between adjacent tiles of successive clock zones and is used once, or
// twice if it is a wire
template <typename Lyt>
void check_wellformed(const Lyt& lyt)
{
    bool fan = true, cross = true, inside = true, driven = true;
    lyt.foreach_node(
        [&](const auto& n)
        {
            if (lyt.is_constant(n))
                return;
            const auto t = lyt.get_tile(n);
            inside       = inside && !t.is_dead() && lyt.is_within_bounds(t) && lyt.get_node(t) == n;
            const auto fo = lyt.fanout_size(n);
            fan = fan && (lyt.is_po(n) ? fo == 0 : lyt.is_wire(n) && !lyt.is_pi(n) ? fo <= 2 : fo <= 1);
            driven = driven && (lyt.is_pi(n) ? lyt.fanin_size(n) == 0 : lyt.fanin_size(n) == lyt.node_function(n).num_vars());
            if (t.z != 0)
                cross = cross && lyt.is_wire(n) && !lyt.is_pi(n) && !lyt.is_po(n) && lyt.fanin_size(n) == 1 && fo == 1 && !lyt.is_empty_tile(lyt.below(t)) && lyt.is_wire(lyt.get_node(lyt.below(t)));
        });
    vx_check(inside, "every node lies on a tile of its own within the layout");
    vx_check(driven, "every node is driven through adjacent tiles of the preceding clock zone");
    vx_check(fan, "gates drive one tile and wires at most two");
    vx_check(cross, "crossings are wires above wires");
}
}  // namespace nets
