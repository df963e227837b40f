// Design rule checks, critical paths and gate counts.
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/truth_table_utils.hpp>
#include <sstream>

using namespace fiction;
using namespace nets;

namespace
{
using LYT = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using T   = tile<LYT>;

gate_level_drv_stats drvs(const LYT& l, gate_level_drv_params ps = {})
{
    std::stringstream    ss{};
    gate_level_drv_stats st{};
    ps.out = &ss;
    gate_level_drvs(l, ps, &st);
    return st;
}
unsigned entries(gate_level_drv_stats& st, const char* k) { return static_cast<unsigned>(st.report[k].size()); }

struct item
{
    unsigned              kind;  // 0 input, 1 buffer, 2 inverter, 3 conjunction, 4 output
    T                     t;
    std::vector<unsigned> from;
};
bool next_to(const T& a, const T& b)
{
    const int dx = static_cast<int>(a.x) - static_cast<int>(b.x), dy = static_cast<int>(a.y) - static_cast<int>(b.y);
    return dx * dx + dy * dy == 1;
}
// places up to three nodes anywhere, connected in any way
void rules_case(unsigned w, unsigned h, unsigned z)
{
    LYT                l{{w, h, z}, twoddwave_clocking<LYT>()};
    std::vector<item>  m;
    const auto         count = pick("count", 0, 3);
    bool               input = false, output = false;
    for (unsigned i = 0; i < count; ++i)
    {
        const auto k = i == 0 ? 0 : pick(nm("kind", i), 0, 4);
        const auto p = pick(nm("tile", i), 0, (w + 1) * (h + 1) * (z + 1) - 1);
        const T    t{p % (w + 1), p / (w + 1) % (h + 1), p / ((w + 1) * (h + 1))};
        for (const auto& x : m)
            vx_assume(!(x.t == t));
        item it{k, t, {}};
        if (k == 0)
        {
            l.create_pi("", t);
            input = true;
        }
        else
        {
            {
                it.from.push_back(pick(nm("fa", i), 0, i - 1));
                const auto s = static_cast<mockturtle::signal<LYT>>(m[it.from[0]].t);
                if (k == 1)
                    l.create_buf(s, t);
                else if (k == 2)
                    l.create_not(s, t);
                else if (k == 3)
                {
                    it.from.push_back(pick(nm("fb", i), 0, i - 1));
                    l.create_and(s, static_cast<mockturtle::signal<LYT>>(m[it.from[1]].t), t);
                }
                else
                    l.create_po(s, "", t), output = true;
            }
        }
        m.push_back(it);
    }
    unsigned far = 0, phase = 0, missing = 0, cross = 0, inner = 0;
    for (unsigned i = 0; i < count; ++i)
    {
        unsigned in = 0, out = 0;
        for (auto f : m[i].from)
        {
            const auto& c    = m[f].t;
            const bool  adj  = next_to(m[i].t, c);
            const bool  flow = (c.x + c.y + 1) % 4 == (m[i].t.x + m[i].t.y) % 4;
            far += !adj;
            phase += !flow;
            in += adj && flow;
        }
        for (const auto& x : m)
            for (auto f : x.from)
                out += f == i && next_to(m[i].t, x.t) && (m[i].t.x + m[i].t.y + 1) % 4 == (x.t.x + x.t.y) % 4;
        missing += (in == 0 && m[i].kind != 0) || (out == 0 && m[i].kind != 4);
        const bool wire = m[i].kind == 0 || m[i].kind == 1 || m[i].kind == 4;
        if (wire && m[i].t.z == 1)
        {
            bool below = false;
            for (const auto& x : m)
                below = below || (x.t.x == m[i].t.x && x.t.y == m[i].t.y && x.t.z == 0 && (x.kind == 0 || x.kind == 1 || x.kind == 4));
            cross += !below;
        }
        inner += (m[i].kind == 0 || m[i].kind == 4) && m[i].t.x != 0 && m[i].t.x != w && m[i].t.y != 0 && m[i].t.y != h;
    }
    const unsigned io = count > 0 ? !input + !output : 0;
    const auto rule = pick("rule", 0, 6);
    vx_assume(rule == 0 || count < 3);
    gate_level_drv_params ps{};
    if (rule > 0)
    {
        ps = {false, false, false, false, false, false, false, false, false, false};
        (rule == 1 ? ps.non_adjacent_connections : rule == 2 ? ps.missing_connections : rule == 3 ? ps.crossing_gates : rule == 4 ? ps.clocked_data_flow : rule == 5 ? ps.has_io : ps.border_io) = true;
    }
    auto           st   = drvs(l, ps);
    const unsigned want = rule == 0 ? far + missing + cross + phase + io : rule == 1 ? far : rule == 2 ? missing : rule == 3 ? cross : rule == 4 ? phase : rule == 5 ? io : 0;
    vx_observe(far), vx_observe(missing), vx_observe(cross), vx_observe(phase), vx_observe(io), vx_observe(st.drvs), vx_observe(inner), vx_observe(st.warnings);
    vx_check(st.drvs == want, "every violation of a design rule is counted");
    vx_check(st.warnings == (rule == 0 || rule == 6 ? inner : 0), "inputs and outputs inside the layout are warned of");
    vx_check(st.report["DRVs"].get<unsigned>() == st.drvs && st.report["Warnings"].get<unsigned>() == st.warnings, "the report states the totals");
    if (rule == 0)
    {
        vx_check((entries(st, "Non adjacent connections") > 0) == (far > 0) && (entries(st, "Improperly clocked tiles") > 0) == (phase > 0) && entries(st, "Missing connections") == missing && entries(st, "Wires crossing gates") == cross && entries(st, "Border I/O ports") == inner, "the report lists the tiles at fault");
    }
    vx_reach("checked");
}
}  // namespace

VX_ENTRY(an_rules)
{
    rules_case(2, VX_B(1u, 2u), 0);
}
VX_ENTRY(an_rules_layers)
{
    rules_case(VX_B(1u, 2u), 1, 1);
}
VX_ENTRY(an_unplaced)
{
    LYT        l{{2, 1}, twoddwave_clocking<LYT>()};
    const auto a   = l.create_pi("", {0, 0});
    const auto b   = l.create_buf(a, {1, 0});
    const auto c   = l.create_po(b, "", {2, 0});
    const auto which = pick("which", 0, 2);
    const auto n   = l.get_node(which == 0 ? a : which == 1 ? b : c);
    gate_level_drv_params ps{};
    ps.non_adjacent_connections = ps.missing_connections = ps.clocked_data_flow = ps.border_io = ps.crossing_gates = ps.has_io = false;
    vx_check(drvs(l, ps).warnings == 0 && drvs(l, ps).drvs == 0, "placed nodes are not warned of");
    l.move_node(n, {});
    const auto st = drvs(l, ps);
    vx_check(st.warnings == 1, "nodes without a tile are warned of");
    vx_check(st.drvs == (which == 0), "inputs without a tile violate the rules");
    vx_reach("unplaced");
}
VX_ENTRY(an_ortho)
{
    const auto n  = make<NAM>({.max_pi = 2, .gates = VX_B(3u, 4u), .pos = 2, .types = 1u << NOT | 1u << AND | 1u << BUF, .free_pi = false, .distinct = true});
    const auto l  = orthogonal<LYT>(n.ntk);
    auto       st = drvs(l);
    vx_check(st.drvs == 0, "orthogonal layouts violate no design rules");
    vx_check(st.warnings == 0, "orthogonal layouts cause no warnings");
    vx_reach("orthogonal");
}
// two wires of any lengths lead to a conjunction, another one from there to the output
VX_ENTRY(an_paths)
{
    const unsigned M = VX_B(9u, 12u);
    const auto     a = pick("a", 1, M), b = pick("b", 1, M), c = pick("c", 1, 3), ph = pick("phases", 3, 4), first = pick("zone", 0, 3);
    const auto     gate = pick("gate", 0, 1), second = pick("second_output", 0, 1);
    vx_assume(first < ph);
    LYT        l{{M + 3, M + 1}, open_clocking<LYT>(ph == 4 ? num_clks::FOUR : num_clks::THREE)};
    const auto zone = [&](unsigned d) { return static_cast<typename LYT::clock_number_t>((first + 5 * 12 - d) % ph); };
    const T    g{M, M};
    l.assign_clock_number(g, zone(0));
    // at distance d west and north of the gate
    auto s = l.create_pi("", {M - a, M});
    l.assign_clock_number({M - a, M}, zone(a));
    for (unsigned d = a - 1; d > 0; --d)
    {
        const T t{M - d, M};
        l.assign_clock_number(t, zone(d));
        s = gate && d == 1 ? l.create_not(s, t) : l.create_buf(s, t);
    }
    auto r = l.create_pi("", {M, M - b});
    l.assign_clock_number({M, M - b}, zone(b));
    for (unsigned d = b - 1; d > 0; --d)
    {
        const T t{M, M - d};
        l.assign_clock_number(t, zone(d));
        r = l.create_buf(r, t);
    }
    auto o = l.create_and(s, r, g);
    for (unsigned d = 1; d <= c; ++d)
    {
        const T t{M + d, M};
        l.assign_clock_number(t, zone(60 - d));
        o = d == c ? l.create_po(o, "", t) : l.create_buf(o, t);
    }
    if (second)
    {
        // an output right below the gate
        const T t{M, M + 1};
        l.assign_clock_number(t, zone(59));
        l.create_po(static_cast<mockturtle::signal<LYT>>(g), "", t);
    }
    const auto res = critical_path_length_and_throughput(l);
    vx_check(res.critical_path_length == std::max(a, b) + 1 + c, "the critical path is the longest one from an input to an output in tiles");
    // phases that pass until the signals of inputs applied in the same cycle arrive
    const auto ta = zone(a) + a, tb = zone(b) + b;
    vx_check(res.throughput == (ta > tb ? ta - tb : tb - ta) / ph + 1, "throughput follows from the difference of the paths in cycles");
    vx_reach("paths");
}
VX_ENTRY(an_counts)
{
    TEC                     n;
    std::uint64_t           want[24]{};
    std::vector<std::uint64_t> s;
    for (unsigned i = 0; i < 3; ++i)
        s.push_back(n.create_pi());
    const auto g = pick("gates", 0, VX_B(2u, 3u));
    for (unsigned i = 0; i < g; ++i)
    {
        const auto t = pick(nm("type", i), 0, 21);
        const auto a = s[pick(nm("fa", i), 0, i == 0 ? 0 : 3) == 3 ? s.size() - 1 : 0], b = s[1], c = s[2];
        switch (t)
        {
            case 0: s.push_back(n.create_buf(a)); break;
            case 1: s.push_back(n.create_not(a)); break;
            case 2: s.push_back(n.create_and(a, b)); break;
            case 3: s.push_back(n.create_or(a, b)); break;
            case 4: s.push_back(n.create_nand(a, b)); break;
            case 5: s.push_back(n.create_nor(a, b)); break;
            case 6: s.push_back(n.create_xor(a, b)); break;
            case 7: s.push_back(n.create_xnor(a, b)); break;
            case 8: s.push_back(n.create_lt(a, b)); break;
            case 9: s.push_back(n.create_gt(a, b)); break;
            case 10: s.push_back(n.create_le(a, b)); break;
            case 11: s.push_back(n.create_ge(a, b)); break;
            case 12: s.push_back(n.create_node({a, b, c}, create_and3_tt())); break;
            case 13: s.push_back(n.create_node({a, b, c}, create_xor_and_tt())); break;
            case 14: s.push_back(n.create_node({a, b, c}, create_or_and_tt())); break;
            case 15: s.push_back(n.create_node({a, b, c}, create_onehot_tt())); break;
            case 16: s.push_back(n.create_maj(a, b, c)); break;
            case 17: s.push_back(n.create_node({a, b, c}, create_gamble_tt())); break;
            case 18: s.push_back(n.create_dot(a, b, c)); break;
            case 19: s.push_back(n.create_ite(a, b, c)); break;
            case 20: s.push_back(n.create_node({a, b, c}, create_and_xor_tt())); break;
            default: s.push_back(n.create_xor3(a, b, c)); break;
        }
        want[t]++;
    }
    n.create_po(s.back());
    count_gate_types_stats st{};
    // buffers that drive more than one node are fanouts
    std::uint64_t fan = 0;
    n.foreach_node([&](const auto& x) { fan += !n.is_constant(x) && !n.is_pi(x) && n.is_buf(x) && n.fanout_size(x) > 1; });
    count_gate_types(n, &st);
    vx_check(st.num_fanout == fan && st.num_buf + fan == want[0] && st.num_inv == want[1], "buffers, fanouts and inverters are counted");
    vx_check(st.num_and2 == want[2] && st.num_or2 == want[3] && st.num_nand2 == want[4] && st.num_nor2 == want[5] && st.num_xor2 == want[6] && st.num_xnor2 == want[7], "symmetric two-input gates are counted");
    vx_check(st.num_lt2 == want[8] && st.num_gt2 == want[9] && st.num_le2 == want[10] && st.num_ge2 == want[11], "comparisons are counted");
    vx_check(st.num_and3 == want[12] && st.num_xor_and == want[13] && st.num_or_and == want[14] && st.num_onehot == want[15] && st.num_maj3 == want[16] && st.num_gamble == want[17] && st.num_dot == want[18] && st.num_mux == want[19] && st.num_and_xor == want[20] && st.num_other == want[21], "three-input gates are counted");
    vx_reach("counted");
}
