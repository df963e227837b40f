// Gate-level layouts under operation sequences.
#include "vx.h"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>
#include <algorithm>
#include <string>
#include <vector>
using namespace fiction;
namespace
{
using UC = offset::ucoord_t;
using CL = clocked_layout<tile_based_layout<cartesian_layout<UC>>>;
using GL = gate_level_layout<CL>;
constexpr int W = 7;  // layout corner
using sig = std::uint64_t;

struct mnode
{
    unsigned          kind;  // literal: 2 buffer, 3 not, 4 and, 6 or, ...
    bool              placed, pi, po;
    UC                t;
    std::vector<UC>   children;
    std::string       name;
};
// reference: what each operation does, over a plain list of nodes
struct model
{
    std::vector<mnode> n;   // node i + 2
    std::vector<unsigned> pis;
    int at(const UC& t) const
    {
        for (std::size_t i = 0; i < n.size(); ++i)
            if (n[i].placed && n[i].t == t)
                return static_cast<int>(i);
        return -1;
    }
    void clear(const UC& t)
    {
        if (const int i = at(t); i >= 0)
        {
            n[static_cast<std::size_t>(i)].placed = false;
            n[static_cast<std::size_t>(i)].po     = false;
        }
    }
    unsigned create(unsigned kind, const UC& t, std::vector<UC> ch, bool pi, bool po, std::string name)
    {
        clear(t);
        n.push_back({kind, true, pi, po, t, std::move(ch), std::move(name)});
        if (pi)
            pis.push_back(static_cast<unsigned>(n.size() - 1));
        return static_cast<unsigned>(n.size() + 1);
    }
    void move(unsigned id, const UC& t, std::vector<UC> ch)
    {
        mnode& m = n[id - 2];
        if (!(m.placed && m.t == t))
        {
            const bool po = m.po;
            m.placed      = false;
            clear(t);
            n[id - 2].placed = true;
            n[id - 2].po     = po;
            n[id - 2].t      = t;
        }
        n[id - 2].children = std::move(ch);
    }
};
UC tile(const char* nx, const char* ny, const char* nz)
{
    const auto x = vx_range(nx, 0, W), y = vx_range(ny, 0, W), z = vx_range(nz, 0, 1);
    return UC{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(z)};
}
// adjacent in the plane (any layers)
bool adj(const UC& a, const UC& b)
{
    const auto dx = static_cast<std::int64_t>(a.x) - static_cast<std::int64_t>(b.x), dy = static_cast<std::int64_t>(a.y) - static_cast<std::int64_t>(b.y);
    return ((dx == 0) & ((dy == 1) | (dy == -1))) | ((dy == 0) & ((dx == 1) | (dx == -1)));
}
bool next_phase(const UC& a, const UC& b)
{
    return ((a.x + a.y + 1) & 3) == ((b.x + b.y) & 3);
}
void compare_counts(const GL& l, const model& m)
{
    std::size_t wires = 0, gates = 0, pos = 0, crossings = 0;
    for (const auto& e : m.n)
    {
        pos += e.po;
        if (e.placed)
        {
            (e.kind == 2 ? wires : gates)++;
            if (e.t.z == 1)
            {
                const UC below{e.t.x, e.t.y, 0};
                const int b = m.at(below);
                crossings += b >= 0 && (e.kind == 2 || m.n[static_cast<std::size_t>(b)].kind == 2);
            }
        }
    }
    vx_check(l.size() == m.n.size() + 2, "every created node is kept");
    vx_check(l.num_pis() == m.pis.size() && l.num_pos() == pos, "the numbers of inputs and outputs");
    vx_check(l.num_cis() == l.num_pis() && l.num_cos() == l.num_pos(), "combinational inputs and outputs are the primary ones");
    vx_check(l.num_wires() == wires && l.num_gates() == gates, "the numbers of wires and gates");
    vx_check(l.num_crossings() == crossings, "the number of crossings");
    vx_check(l.is_empty() == (wires + gates == 0), "a layout without wires and gates is empty");
}
void compare_nodes(const GL& l, const model& m)
{
    for (std::size_t i = 0; i < m.n.size(); ++i)
    {
        const auto& e = m.n[i];
        const auto  n = static_cast<GL::node>(i + 2);
        vx_check(l.is_dead(n) == !e.placed, "nodes are dead exactly when they were removed");
        if (e.placed)
        {
            vx_check(l.get_tile(n) == e.t && l.get_node(e.t) == n && l.get_node(l.make_signal(n)) == n, "node and tile refer to each other");
            vx_check(!l.is_empty_tile(e.t) && l.is_wire_tile(e.t) == (e.kind == 2) && l.is_gate_tile(e.t) == !e.pi && l.is_pi_tile(e.t) == e.pi && l.is_po_tile(e.t) == e.po, "the kind of the tile");
        }
        vx_check(l.is_wire(n) == (e.kind == 2) && l.is_inv(n) == (e.kind == 3) && l.is_and(n) == (e.kind == 4) && l.is_or(n) == (e.kind == 6), "the function of the node");
        vx_check(l.is_pi(n) == e.pi && l.is_po(n) == e.po, "input and output nodes");
        if (!e.name.empty())
            vx_check(l.get_name(n) == e.name && l.has_name(n), "the name of the node");
    }
    std::vector<unsigned> pis, want;
    l.foreach_pi([&](const auto n) { pis.push_back(n - 2); });
    vx_check(pis == m.pis, "inputs keep their order");
    std::size_t pos = 0;
    l.foreach_po(
        [&](const auto s)
        {
            const int i = m.at(static_cast<UC>(s));
            vx_check(i >= 0 && m.n[static_cast<std::size_t>(i)].po, "outputs refer to the tiles of output nodes");
            ++pos;
        });
    vx_check(pos == l.num_pos(), "every output is visited");
    std::vector<unsigned> nodes, gates, wires, wn{0, 1}, wg, ww;
    l.foreach_node([&](const auto n) { nodes.push_back(n); });
    l.foreach_gate([&](const auto n) { gates.push_back(n); });
    l.foreach_wire([&](const auto n) { wires.push_back(n); });
    for (std::size_t i = 0; i < m.n.size(); ++i)
        if (m.n[i].placed)
        {
            wn.push_back(static_cast<unsigned>(i + 2));
            if (!m.n[i].pi)
                wg.push_back(static_cast<unsigned>(i + 2));
            if (m.n[i].kind == 2)
                ww.push_back(static_cast<unsigned>(i + 2));
        }
    vx_check(nodes == wn && gates == wg && wires == ww, "iterations visit the nodes, gates and wires that are alive");
}
void compare_edges(const GL& l, const model& m)
{
    // fan-ins: the children that are placed next to the node, in the previous clock phase
    const auto i = vx_concretize(vx_range("node", 0, m.n.size() - 1));
    const auto& e = m.n[i];
    if (!e.placed)
        return;
    const auto        n = static_cast<GL::node>(i + 2);
    std::vector<UC>   want, wantu, got, gotu;
    for (const auto& c : e.children)
        if (m.at(c) >= 0 && adj(c, e.t))
        {
            wantu.push_back(c);
            if (next_phase(c, e.t))
                want.push_back(c);
        }
    for (const auto& t : l.incoming_data_flow(e.t))
        got.push_back(t);
    for (const auto& t : l.incoming_data_flow<false>(e.t))
        gotu.push_back(t);
    vx_check(got == want, "fan-ins are the adjacent children in the previous phase, in order");
    vx_check(gotu == wantu, "fan-ins without clocking are the adjacent children, in order");
    vx_check(l.fanin_size(n) == want.size() && l.fanin_size<false>(n) == wantu.size() && l.has_no_incoming_signal(e.t) == want.empty(), "the number of fan-ins");
    // fan-outs are the reverse relation
    std::vector<bool> out(m.n.size(), false), outu(m.n.size(), false);
    std::size_t       no = 0, nou = 0;
    l.foreach_fanout(n,
                     [&](const auto f)
                     {
                         vx_check(!out[f - 2], "each fan-out is visited once");
                         out[f - 2] = true;
                         ++no;
                     });
    for (const auto& t : l.outgoing_data_flow<false>(e.t))
    {
        const auto f = l.get_node(t);
        vx_check(!outu[f - 2], "each fan-out is visited once");
        outu[f - 2] = true;
        ++nou;
    }
    vx_check(l.fanout_size(n) == no && l.fanout_size<false>(n) == nou && l.outgoing_data_flow(e.t).size() == no && l.is_fanout(n) == (e.kind == 2 && no > 1), "the number of fan-outs");
    for (std::size_t j = 0; j < m.n.size(); ++j)
    {
        const auto& f     = m.n[j];
        bool        child = false;
        for (const auto& c : f.children)
            child = child | (c == e.t);
        const bool u = f.placed & child & adj(f.t, e.t);
        vx_check(outu[j] == u, "fan-outs are the adjacent nodes with this child");
        vx_check(out[j] == (u & next_phase(e.t, f.t)), "fan-outs are the adjacent nodes with this child in the next phase");
    }
    // directions
    const UC nb[4] = {l.north(e.t), l.east(e.t), l.south(e.t), l.west(e.t)};
    const bool in[4] = {l.has_northern_incoming_signal(e.t), l.has_eastern_incoming_signal(e.t), l.has_southern_incoming_signal(e.t), l.has_western_incoming_signal(e.t)};
    const bool ou[4] = {l.has_northern_outgoing_signal(e.t), l.has_eastern_outgoing_signal(e.t), l.has_southern_outgoing_signal(e.t), l.has_western_outgoing_signal(e.t)};
    bool       opposite = false;
    for (int d = 0; d < 4; ++d)
    {
        bool wi = false, wo = false;
        for (const auto& c : want)
            wi = wi | ((c.x == nb[d].x) & (c.y == nb[d].y));
        for (std::size_t j = 0; j < m.n.size(); ++j)
            wo = wo | (out[j] & (m.n[j].t.x == nb[d].x) & (m.n[j].t.y == nb[d].y));
        vx_check(in[d] == wi && ou[d] == wo, "signals enter and leave in the direction of the fan-ins and fan-outs");
        opposite = opposite | ((in[d] & ou[(d + 2) % 4]) & !(nb[d] == e.t) & !(nb[(d + 2) % 4] == e.t));
    }
    vx_check(l.has_opposite_incoming_and_outgoing_signals(e.t) == opposite, "signals that pass straight through");
}
void step(GL& l, model& m, int i, int forced = -1)
{
    const char* nm[3][6] = {{"op0", "x0", "y0", "z0", "a0", "b0"}, {"op1", "x1", "y1", "z1", "a1", "b1"}, {"op2", "x2", "y2", "z2", "a2", "b2"}};
    const auto  op = forced >= 0 ? static_cast<std::uint64_t>(forced) : vx_concretize(vx_range(nm[i][0], 0, 7));
    const auto  have = m.n.size();
    const UC    t = tile(nm[i][1], nm[i][2], nm[i][3]);
    const auto  pick = [&](const char* s) -> std::size_t { return vx_concretize(vx_range(s, 0, have - 1)); };
    if (have == 0 && op != 0 && op != 6)
        vx_assume(false);
    const auto tile_of = [&](std::size_t k) { return m.n[k].t; };
    switch (op)
    {
        case 0:
        {
            const bool named = (i & 1) != 0;
            const auto s     = l.create_pi(named ? "in" : "", t);
            const auto id    = m.create(2, t, {}, true, false, named ? "in" : "pi" + std::to_string(m.pis.size() + 1));
            vx_check(static_cast<UC>(s) == t && l.get_node(s) == id, "a new input is at its tile");
            break;
        }
        case 1:
        {
            const auto a = tile_of(pick(nm[i][4]));
            l.create_buf(static_cast<sig>(a), t);
            m.create(2, t, {a}, false, false, "");
            break;
        }
        case 2:
        {
            const auto a = tile_of(pick(nm[i][4])), b = tile_of(pick(nm[i][5]));
            l.create_and(static_cast<sig>(a), static_cast<sig>(b), t);
            m.create(4, t, {a, b}, false, false, "");
            break;
        }
        case 3:
        {
            const auto a = tile_of(pick(nm[i][4]));
            l.create_po(static_cast<sig>(a), "out", t);
            m.create(2, t, {a}, false, true, "out");
            break;
        }
        case 4:
        {
            const auto k = pick(nm[i][4]), c = pick(nm[i][5]);
            vx_assume(m.n[k].placed);
            const auto ct = tile_of(c);
            const auto s  = l.move_node(static_cast<GL::node>(k + 2), t, {static_cast<sig>(ct)});
            m.move(static_cast<unsigned>(k + 2), t, {ct});
            vx_check(static_cast<UC>(s) == t, "a moved node is at its new tile");
            break;
        }
        case 5:
        {
            const auto k = pick(nm[i][4]), c = pick(nm[i][5]);
            vx_assume(m.n[k].placed);
            l.connect(static_cast<sig>(tile_of(c)), static_cast<GL::node>(k + 2));
            m.n[k].children.push_back(tile_of(c));
            break;
        }
        case 6:
        {
            l.clear_tile(t);
            m.clear(t);
            break;
        }
        default:
        {
            const auto k = pick(nm[i][4]);
            vx_assume(m.n[k].placed);
            l.move_node(static_cast<GL::node>(k + 2), t);
            m.move(static_cast<unsigned>(k + 2), t, {});
        }
    }
}
void prepare(GL& l, model& m)
{
    // input (1,1) -> wire (2,1) -> output (3,1); a gate under a crossing wire at (2,2)
    const UC a{1, 1, 0}, b{2, 1, 0}, c{3, 1, 0}, d{2, 2, 0}, e{2, 2, 1};
    l.create_pi("a", a);
    m.create(2, a, {}, true, false, "a");
    l.create_buf(static_cast<sig>(a), b);
    m.create(2, b, {a}, false, false, "");
    l.create_po(static_cast<sig>(b), "f", c);
    m.create(2, c, {b}, false, true, "f");
    l.create_and(static_cast<sig>(b), static_cast<sig>(a), d);
    m.create(4, d, {b, a}, false, false, "");
    l.create_buf(static_cast<sig>(b), e);
    m.create(2, e, {b}, false, false, "");
}
GL fresh()
{
    return GL{UC{W, W, 1}, twoddwave_clocking<GL>(), "lyt"};
}
}  // namespace
VX_ENTRY(gl_new)
{
    // sequences from the empty layout
    GL       l = fresh();
    model    m;
    const int k = static_cast<int>(VX_B(3, 4));
    for (int i = 0; i < k; ++i)
        step(l, m, i);
    compare_counts(l, m);
    if (!m.n.empty())
        compare_nodes(l, m);
}
VX_ENTRY(gl_edit)
{
    // edits of a small circuit
    GL    l = fresh();
    model m;
    prepare(l, m);
    step(l, m, 0, static_cast<int>(vx_part()));
    step(l, m, 1);
    compare_counts(l, m);
    compare_nodes(l, m);
}
VX_ENTRY(gl_edges)
{
    GL    l = fresh();
    model m;
    prepare(l, m);
    step(l, m, 0);
    compare_edges(l, m);
}
VX_ENTRY(gl_layers)
{
    // two paths that cross, with every tile in either layer
    GL         l = fresh();
    model      m;
    const auto z = vx_concretize(vx_range("layers", 0, 63));
    const auto at = [z](int x, int y, int bit) { return UC{x, y, static_cast<std::int32_t>((z >> bit) & 1)}; };
    const UC   a = at(0, 1, 0), u = at(1, 1, 1), v = at(2, 1, 2), o = at(3, 1, 3), b = at(2, 0, 4), w{2, 1, v.z == 0 ? 1 : 0}, q = at(2, 2, 5);
    const auto pi = [&](const UC& t)
    {
        l.create_pi("x", t);
        m.create(2, t, {}, true, false, "x");
    };
    const auto wire = [&](const UC& c, const UC& t, bool po)
    {
        if (po)
            l.create_po(static_cast<sig>(c), "y", t);
        else
            l.create_buf(static_cast<sig>(c), t);
        m.create(2, t, {c}, false, po, po ? "y" : "");
    };
    pi(a);
    pi(b);
    wire(a, u, false);
    wire(u, v, false);
    wire(b, w, false);
    wire(v, o, true);
    wire(w, q, true);
    // possibly one more fan-out of a crossed tile, and one connection moved to the other path
    const auto more = vx_concretize(vx_range("more", 0, 3));
    if (more == 1)
        wire(v, UC{2, 2, q.z == 0 ? 1 : 0}, false);
    else if (more == 2)
        wire(w, UC{3, 1, o.z == 0 ? 1 : 0}, false);
    else if (more == 3)
    {
        l.connect(static_cast<sig>(u), l.get_node(w));
        m.n[4].children.push_back(u);
    }
    compare_edges(l, m);
    compare_counts(l, m);
}
namespace
{
// a node with three neighbours in the previous phase
GL star()
{
    GL l{UC{2, 2, 1}, open_clocking<GL>(num_clks::FOUR)};
    l.assign_clock_number(UC{1, 1, 0}, 1);
    l.assign_clock_number(UC{1, 2, 0}, 2);
    return l;
}
using tt = kitty::dynamic_truth_table;
tt table(unsigned vars, std::uint64_t bits)
{
    tt t{vars};
    kitty::create_from_words(t, &bits, &bits + 1);
    return t;
}
unsigned bits_of(const tt& t)
{
    unsigned r = 0;
    for (std::uint64_t i = 0; i < t.num_bits(); ++i)
        r |= static_cast<unsigned>(kitty::get_bit(t, i)) << i;
    return r;
}
}  // namespace
VX_ENTRY(gl_functions)
{
    GL         l = star();
    const UC   ta{0, 1, 0}, tb{1, 0, 0}, tc{2, 1, 0}, t{1, 1, 0};
    const auto a = l.create_pi("a", ta), b = l.create_pi("b", tb), c = l.create_pi("c", tc);
    // the values of the three inputs under eight assignments
    const unsigned va = vx_u8("va"), vb = vx_u8("vb"), vc = vx_u8("vc");
    const auto     op = vx_concretize(vx_range("op", 0, 14));
    unsigned       want = 0, ins = 2;
    const auto     fn3 = vx_u8("f3");
    const auto     fn2 = static_cast<unsigned>(vx_range("f2", 0, 15));
    switch (op)
    {
        case 0: l.create_buf(a, t); want = va; ins = 1; break;
        case 1: l.create_not(a, t); want = ~va; ins = 1; break;
        case 2: l.create_and(a, b, t); want = va & vb; break;
        case 3: l.create_nand(a, b, t); want = ~(va & vb); break;
        case 4: l.create_or(a, b, t); want = va | vb; break;
        case 5: l.create_nor(a, b, t); want = ~(va | vb); break;
        // table entries of comparisons are indexed with the first operand as the high bit
        case 6: l.create_lt(a, b, t); want = va & ~vb; break;
        case 7: l.create_ge(a, b, t); want = ~va | vb; break;
        case 8: l.create_gt(a, b, t); want = ~va & vb; break;
        case 9: l.create_le(a, b, t); want = va | ~vb; break;
        case 10: l.create_xor(a, b, t); want = va ^ vb; break;
        case 11: l.create_xnor(a, b, t); want = ~(va ^ vb); break;
        case 12: l.create_maj(a, b, c, t); want = (va & vb) | (va & vc) | (vb & vc); ins = 3; break;
        case 13:
            l.create_node({a, b, c}, table(3, fn3), t);
            ins = 3;
            for (unsigned i = 0; i < 8; ++i)
                want |= ((fn3 >> (((va >> i) & 1) | (((vb >> i) & 1) << 1) | (((vc >> i) & 1) << 2))) & 1) << i;
            break;
        default:
            l.create_node({a, b}, table(2, fn2), t);
            for (unsigned i = 0; i < 8; ++i)
                want |= ((fn2 >> (((va >> i) & 1) | (((vb >> i) & 1) << 1))) & 1) << i;
    }
    const auto      n = l.get_node(t);
    std::vector<tt> in{table(3, va), table(3, vb), table(3, vc)};
    in.resize(ins);
    vx_check(l.fanin_size(n) == ins, "the operands are the fan-ins");
    const tt r = l.compute(n, in.begin(), in.end());
    vx_check(bits_of(r) == (want & 255), "the node computes its function of the fan-ins");
    const bool is[13] = {l.is_buf(n), l.is_inv(n), l.is_and(n), l.is_nand(n), l.is_or(n), l.is_nor(n), l.is_lt(n), l.is_ge(n), l.is_gt(n), l.is_le(n), l.is_xor(n), l.is_xnor(n), l.is_maj(n)};
    if (op < 13)
    {
        for (unsigned i = 0; i < 13; ++i)
            vx_check(is[i] == (i == op), "the node has exactly the kind it was created with");
        vx_check(l.num_wires() == (op == 0 ? 4 : 3) && l.num_gates() == (op == 0 ? 0 : 1), "wires compute the identity, gates everything else");
    }
    else
    {
        const unsigned full = op == 13 ? fn3 : fn2;
        vx_check(bits_of(l.node_function(n)) == full, "the node has the function it was created with");
        if (op == 14)
        {
            static const unsigned lits[13] = {99, 99, 8, 7, 14, 1, 2, 13, 4, 11, 6, 9, 99};
            for (unsigned i = 0; i < 13; ++i)
                if (lits[i] != 99)
                    vx_check(is[i] == (full == lits[i]), "a node has a kind exactly when it has its function");
        }
        else
            vx_check(l.is_maj(n) == (full == 0xe8), "a node has a kind exactly when it has its function");
    }
}
VX_ENTRY(gl_clone)
{
    // changes of a clone leave the original alone and vice versa
    GL    l = fresh();
    model m;
    prepare(l, m);
    model mc = m;
    GL    c  = l.clone();
    c.set_layout_name("copy");
    vx_check(l.get_layout_name() == "lyt" && c.get_layout_name() == "copy", "layouts have their own names");
    const bool which = vx_concretize(vx_range("which", 0, 1)) != 0;
    step(which ? c : l, which ? mc : m, 0);
    const auto cn = vx_u8("clock");
    (which ? c : l).assign_clock_number(UC{1, 1, 0}, cn);
    vx_check((which ? l : c).get_clock_number(UC{1, 1, 0}) == 2 && (which ? c : l).get_clock_number(UC{1, 1, 0}) == cn % 4, "layouts have their own clock numbers");
    compare_counts(l, m);
    compare_nodes(l, m);
    compare_counts(c, mc);
    compare_nodes(c, mc);
}
VX_ENTRY(gl_from_clocked)
{
    // a gate-level layout on top of an existing clocked layout works like any other one
    const CL base{UC{W, W, 1}, twoddwave_clocking<GL>()};
    GL       l{base};
    model    m;
    vx_check(l.x() == W && l.y() == W && l.z() == 1 && l.is_clocking_scheme("2DDWAVE"), "it has the size and clocking of the clocked layout");
    step(l, m, 0, 0);
    step(l, m, 1);
    compare_counts(l, m);
    compare_nodes(l, m);
}
