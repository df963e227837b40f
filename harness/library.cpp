// Gate libraries: cell-level layouts compute what the gate-level layouts state.
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/apply_gate_library.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/qca_one_library.hpp>
#include <fiction/technology/sim7_mol_library.hpp>
#include <fiction/types.hpp>
#include <array>
#include <map>

using namespace fiction;
using namespace nets;

namespace
{
using CART = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using QCA  = cell_level_layout<qca_technology, clocked_layout<cartesian_layout<offset::ucoord_t>>>;
using MOL  = cell_level_layout<mol_qca_technology, clocked_layout<cartesian_layout<offset::ucoord_t>>>;
using qt   = qca_technology::cell_type;
using qm   = qca_technology::cell_mode;
using T    = tile<CART>;
using C    = cell<QCA>;

struct dot
{
    C    c;
    int  tile;   // index of the tile it belongs to
    bool via;
    bool input;  // fixed by the environment
    int  value;  // -1, 1; 0: undetermined
};

// interaction of two cells, in thousandths of that of neighbours
int coupling(const dot& a, const dot& b)
{
    const int dx = std::abs(static_cast<int>(a.c.x) - static_cast<int>(b.c.x)), dy = std::abs(static_cast<int>(a.c.y) - static_cast<int>(b.c.y));
    if (a.c.z != b.c.z)
        return a.via && b.via && dx == 0 && dy == 0 ? 1000 : 0;
    if (dx + dy == 1)
        return 1000;
    if (dx == 1 && dy == 1)
        return -200;
    if ((dx == 2 && dy == 0) || (dx == 0 && dy == 2))
        return 30;
    if (dx + dy == 3 && dx != 0 && dy != 0)
        return -5;
    return 0;
}

struct simulation
{
    const QCA&       l;
    std::vector<T>   tiles;
    std::vector<int> clock;
    std::vector<dot> dots;

    simulation(const CART& g, const QCA& cells) : l{cells}
    {
        // in the order of the signals
        std::vector<typename CART::node> order;
        unsigned                         n = 0;
        g.foreach_node([&](const auto& m) { n += !g.is_constant(m); });
        for (unsigned round = 0; round < n + 1 && order.size() < n; ++round)
            g.foreach_node(
                [&](const auto& m)
                {
                    if (g.is_constant(m) || std::find(order.begin(), order.end(), m) != order.end())
                        return;
                    bool ready = true;
                    g.foreach_fanin(m, [&](const auto& f) { ready = ready && (g.is_constant(g.get_node(f)) || std::find(order.begin(), order.end(), g.get_node(f)) != order.end()); });
                    if (ready)
                        order.push_back(m);
                });
        for (const auto& m : order)
        {
            tiles.push_back(g.get_tile(m));
            clock.push_back(g.get_clock_number(g.get_tile(m)));
        }
        bool inside = true;
        l.foreach_cell(
            [&](const auto& c)
            {
                const bool via = l.get_cell_mode(c) == qm::VERTICAL;
                dot        d{c, -1, via, l.get_cell_type(c) == qt::INPUT, 0};
                for (unsigned k = 0; k < tiles.size(); ++k)
                    if (tiles[k].x == c.x / 5 && tiles[k].y == c.y / 5 && (tiles[k].z == c.z || (via && tiles[k].z == 1)))
                        if (d.tile < 0 || tiles[k].z == 1)
                            d.tile = static_cast<int>(k);
                if (l.get_cell_type(c) == qt::CONST_0)
                    d.value = -1;
                if (l.get_cell_type(c) == qt::CONST_1)
                    d.value = 1;
                inside = inside && d.tile >= 0;
                dots.push_back(d);
            });
        vx_check(inside, "cells lie in tiles of gates only");
    }
    // lets every tile settle; in: values of the inputs under their names
    void run(const std::map<std::string, bool>& in)
    {
        for (auto& d : dots)
            if (d.input)
            {
                const auto it = in.find(l.get_cell_name(d.c));
                vx_check(it != in.end(), "input cells carry the names of inputs");
                d.value = it->second ? 1 : -1;
            }
            else if (l.get_cell_type(d.c) == qt::NORMAL || l.get_cell_type(d.c) == qt::OUTPUT)
                d.value = 0;
        for (unsigned k = 0; k < tiles.size(); ++k)
            settle(static_cast<int>(k));
    }
    void settle(const int k)
    {
        std::vector<dot*> f;
        for (auto& d : dots)
            if (d.tile == k && (l.get_cell_type(d.c) == qt::NORMAL || l.get_cell_type(d.c) == qt::OUTPUT))
                f.push_back(&d);
        const auto n = f.size();
        if (n > 12)
            vx_fail("a tile has more cells than its size admits");
        std::array<int, 12>                 h{}, s{};
        std::array<std::array<int, 12>, 12> J{};
        for (std::size_t i = 0; i < n; ++i)
        {
            s[i] = 1;
            for (const auto& d : dots)
                if (d.value != 0 && (d.tile == k || (clock[d.tile] + 1) % 4 == clock[k]))
                    h[i] += coupling(*f[i], d) * d.value;
            for (std::size_t j = 0; j < n; ++j)
                if (i != j)
                    J[i][j] = coupling(*f[i], *f[j]);
        }
        int e = 0;
        for (std::size_t i = 0; i < n; ++i)
        {
            e -= h[i];
            for (std::size_t j = 0; j < i; ++j)
                e -= J[i][j];
        }
        int      best = e;
        unsigned cur = (1u << n) - 1, ones = cur, zeros = ~cur;
        for (unsigned g = 1; g < (1u << n); ++g)
        {
            const auto i = static_cast<std::size_t>(__builtin_ctz(g));
            int        t = h[i];
            for (std::size_t j = 0; j < n; ++j)
                t += J[i][j] * s[j];
            e += 2 * s[i] * t;
            s[i] = -s[i];
            cur ^= 1u << i;
            if (e < best)
                best = e, ones = cur, zeros = ~cur;
            else if (e == best)
                ones |= cur, zeros |= ~cur;
        }
        for (std::size_t i = 0; i < n; ++i)
        {
            const bool o = (ones >> i) & 1u, z = (zeros >> i) & 1u;
            f[i]->value = o && z ? 0 : o ? 1 : -1;
        }
    }
};

void check_layout(const CART& g, const QCA& c)
{
    vx_check(c.x() == 5 * g.x() + 4 && c.y() == 5 * g.y() + 4, "every tile has its cells");
    vx_check(c.get_layout_name() == g.get_layout_name(), "the layout keeps its name");
    bool clocks = true;
    c.foreach_cell([&](const auto& x) { clocks = clocks && c.get_clock_number(x) == g.get_clock_number(T{x.x / 5, x.y / 5}); });
    vx_check(clocks && c.num_clocks() == g.num_clocks(), "cells are clocked like their tiles");
    vx_check(c.num_pis() == g.num_pis(), "inputs remain");
    vx_check(c.num_pos() == g.num_pos(), "outputs remain");
}
// the outputs of the cells by name; fails if one is undetermined
std::map<std::string, bool> outputs(const simulation& s)
{
    std::map<std::string, bool> r;
    bool                        known = true;
    for (const auto& d : s.dots)
        if (s.l.get_cell_type(d.c) == qt::OUTPUT)
        {
            known = known && d.value != 0;
            r.emplace(s.l.get_cell_name(d.c), d.value > 0);
        }
    vx_check(known, "outputs settle");
    return r;
}

// sides: north, east, south, west
const T side[] = {{1, 0}, {2, 1}, {1, 2}, {0, 1}};
const T centre{1, 1};

enum kind : unsigned
{
    K_WIRE,
    K_NOT,
    K_AND,
    K_OR,
    K_MAJ,
    K_FAN2,
    K_FAN3,
    K_OTHER
};
struct placed
{
    CART                  l;
    unsigned              k;
    std::vector<unsigned> in, out;  // sides
};
// a gate in the middle of a layout whose connections lead to any sides
placed place(const unsigned kinds)
{
    placed p{CART{{2, 2, 1}, open_clocking<CART>(num_clks::FOUR)}, pick("kind", 0, kinds - 1), {}, {}};
    const unsigned ni = p.k == K_AND || p.k == K_OR || p.k == K_OTHER ? 2 : p.k == K_MAJ ? 3 : 1;
    const unsigned no = p.k == K_FAN2 ? 2 : p.k == K_FAN3 ? 3 : 1;
    const auto     m  = pick("sides", 0, 255);  // two bits each: 0 unused, 1 input, 2 output
    for (unsigned i = 0; i < 4; ++i)
    {
        const auto u = (m >> (2 * i)) & 3u;
        vx_assume(u < 3);
        if (u == 1)
            p.in.push_back(i);
        if (u == 2)
            p.out.push_back(i);
    }
    vx_assume(p.in.size() == ni && p.out.size() == no);
    p.l.set_layout_name("name");
    std::vector<std::uint64_t> s;
    const auto                 base = pick("clock", 0, 3);
    p.l.assign_clock_number(centre, static_cast<std::uint8_t>((base + 1) % 4));
    for (const auto i : p.in)
    {
        p.l.assign_clock_number(side[i], static_cast<std::uint8_t>(base));
        s.push_back(p.l.create_pi("i" + std::to_string(i), side[i]));
    }
    std::uint64_t r = 0;
    switch (p.k)
    {
        case K_NOT: r = p.l.create_not(s[0], centre); break;
        case K_AND: r = p.l.create_and(s[0], s[1], centre); break;
        case K_OR: r = p.l.create_or(s[0], s[1], centre); break;
        case K_MAJ: r = p.l.create_maj(s[0], s[1], s[2], centre); break;
        case K_OTHER:
            switch (pick("other", 0, 4))
            {
                case 0: r = p.l.create_xor(s[0], s[1], centre); break;
                case 1: r = p.l.create_nand(s[0], s[1], centre); break;
                case 2: r = p.l.create_nor(s[0], s[1], centre); break;
                case 3: r = p.l.create_xnor(s[0], s[1], centre); break;
                default: r = p.l.create_lt(s[0], s[1], centre); break;
            }
            break;
        default: r = p.l.create_buf(s[0], centre);
    }
    for (const auto i : p.out)
    {
        p.l.assign_clock_number(side[i], static_cast<std::uint8_t>((base + 2) % 4));
        p.l.create_po(r, "o" + std::to_string(i), side[i]);
    }
    return p;
}
}  // namespace

VX_ENTRY(gl_qca_gate)
{
    const auto p = place(K_OTHER);
    const auto c = apply_gate_library<QCA, qca_one_library>(p.l);
    check_layout(p.l, c);
    simulation s{p.l, c};
    for (unsigned v = 0; v < (1u << p.in.size()); ++v)
    {
        std::map<std::string, bool> in;
        unsigned                    n = 0;
        for (std::size_t i = 0; i < p.in.size(); ++i)
        {
            in["i" + std::to_string(p.in[i])] = (v >> i) & 1u;
            n += (v >> i) & 1u;
        }
        s.run(in);
        const bool want = p.k == K_NOT ? n == 0 : p.k == K_AND || p.k == K_MAJ ? n >= 2 : n >= 1;
        const auto o    = outputs(s);
        bool       ok   = o.size() == p.out.size();
        for (const auto i : p.out)
        {
            const auto it = o.find("o" + std::to_string(i));
            ok            = ok && it != o.end() && it->second == want;
        }
        vx_check(ok, "the cells compute the function of the gate");
    }
    vx_reach("gate");
}
VX_ENTRY(gl_qca_cross)
{
    // two wires cross; both in either direction
    CART       l{{2, 2, 1}, open_clocking<CART>(num_clks::FOUR)};
    const bool up = pick("up", 0, 1), left = pick("left", 0, 1), over = pick("over", 0, 1);
    const T    a0 = up ? side[2] : side[0], a1 = up ? side[0] : side[2], b0 = left ? side[1] : side[3], b1 = left ? side[3] : side[1];
    for (const auto& t : {a0, b0})
        l.assign_clock_number(t, 0);
    l.assign_clock_number(centre, 1);
    l.assign_clock_number(T{1, 1, 1}, 1);
    for (const auto& t : {a1, b1})
        l.assign_clock_number(t, 2);
    // both layers are clocked alike
    for (const auto& t : {a0, b0, a1, b1})
        l.assign_clock_number(T{t.x, t.y, 1}, l.get_clock_number(t));
    const auto a = l.create_pi("a", a0), b = l.create_pi("b", b0);
    const auto ca = l.create_buf(over ? b : a, centre);
    const auto cb = l.create_buf(over ? a : b, T{1, 1, 1});
    l.create_po(over ? cb : ca, "x", a1);
    l.create_po(over ? ca : cb, "y", b1);
    const auto c = apply_gate_library<QCA, qca_one_library>(l);
    check_layout(l, c);
    simulation s{l, c};
    for (unsigned v = 0; v < 4; ++v)
    {
        s.run({{"a", (v & 1u) != 0}, {"b", (v & 2u) != 0}});
        const auto o = outputs(s);
        vx_check(o.size() == 2 && o.at("x") == ((v & 1u) != 0) && o.at("y") == ((v & 2u) != 0), "crossing wires carry their own signals");
    }
    vx_reach("crossing");
}
VX_ENTRY(gl_qca_unsupported)
{
    auto p = place(K_OTHER + 1);
    vx_assume(p.k == K_OTHER);
    bool thrown = false;
    try
    {
        (void)apply_gate_library<QCA, qca_one_library>(p.l);
    }
    catch (const unsupported_gate_type_exception<T>& e)
    {
        thrown = e.where() == centre;
    }
    vx_check(thrown, "gates that the library lacks are refused at their tile");
    bool mol = false;
    try
    {
        (void)apply_gate_library<MOL, sim7_mol_library>(p.l);
    }
    catch (const unsupported_gate_type_exception<T>& e)
    {
        mol = e.where() == centre;
    }
    vx_check(mol, "gates that the molecular library lacks are refused at their tile");
    vx_reach("unsupported");
}
VX_ENTRY(gl_qca_network)
{
    const auto n = make<NAM>({.max_pi = 3, .gates = VX_B(2u, 3u), .pos = 2, .types = 1u << NOT | 1u << AND | 1u << OR, .free_pi = false, .distinct = true});
    const auto l = orthogonal<CART>(n.ntk);
    const auto c = apply_gate_library<QCA, qca_one_library>(l);
    check_layout(l, c);
    simulation s{l, c};
    for (unsigned v = 0; v < (1u << n.pis.size()); ++v)
    {
        std::map<std::string, bool> in;
        std::vector<std::uint8_t>   bits;
        for (std::size_t i = 0; i < n.pis.size(); ++i)
        {
            bits.push_back((v >> i) & 1u);
            in["in" + std::to_string(i)] = bits.back();
        }
        s.run(in);
        const auto o = outputs(s);
        bool       ok = o.size() == n.outs.size();
        for (std::size_t k = 0; k < n.outs.size(); ++k)
        {
            const auto it = o.find("out" + std::to_string(k));
            ok            = ok && it != o.end() && it->second == eval(n.ntk, n.outs[k], n.pis, bits);
        }
        vx_check(ok, "the cells compute the function of the network");
    }
    vx_reach("network");
}
// molecular gates: the two lanes of every port and the order of the clock phases
VX_ENTRY(gl_mol_gate)
{
    using mt     = mol_qca_technology::cell_type;
    const auto p = place(K_OTHER);
    const auto c = apply_gate_library<MOL, sim7_mol_library>(p.l);
    vx_check(c.x() == 29 && c.y() == 29 && c.num_pis() == 2 * p.in.size() && c.num_pos() == 2 * p.out.size(), "every tile has its cells");
    const auto at = [&](unsigned x, unsigned y) { return c.get_cell_type(cell<MOL>{10 + x, 10 + y}); };
    bool       ports = true, quiet = true, constants = true;
    unsigned   zeros = 0, ones = 0;
    for (unsigned i = 0; i < 4; ++i)
    {
        // lanes at the border of a side
        const mt  lane[]  = {i == 0 ? at(4, 0) : i == 1 ? at(9, 4) : i == 2 ? at(4, 9) : at(0, 4), i == 0 ? at(5, 0) : i == 1 ? at(9, 5) : i == 2 ? at(5, 9) : at(0, 5)};
        const bool is_in  = std::find(p.in.begin(), p.in.end(), i) != p.in.end();
        const bool is_out = std::find(p.out.begin(), p.out.end(), i) != p.out.end();
        for (const auto t : lane)
        {
            if (is_in)
                ports = ports && t == mt::NORMAL1;
            else if (is_out)
                ports = ports && t == mt::NORMAL4;
            else
                quiet = quiet && (mol_qca_technology::is_empty_cell(t) || t == mt::CONST_0 || t == mt::CONST_1);
        }
        // the pins touch the gate
        const T    s   = side[i];
        const auto pin = [&](unsigned x, unsigned y) { return c.get_cell_type(cell<MOL>{10 * s.x + x, 10 * s.y + y}); };
        if (is_in || is_out)
        {
            const mt want = is_in ? mt::INPUT : mt::OUTPUT;
            ports         = ports && (i == 0 ? pin(4, 9) == want && pin(5, 9) == want : i == 1 ? pin(0, 4) == want && pin(0, 5) == want : i == 2 ? pin(4, 0) == want && pin(5, 0) == want : pin(9, 4) == want && pin(9, 5) == want);
        }
    }
    for (unsigned x = 0; x < 10; ++x)
        for (unsigned y = 0; y < 10; ++y)
        {
            zeros += at(x, y) == mt::CONST_0;
            ones += at(x, y) == mt::CONST_1;
        }
    constants = p.k == K_AND ? zeros > 0 && ones == 0 : p.k == K_OR ? zeros == 0 && ones > 0 : zeros + ones == 0;
    vx_check(ports, "signals enter in the first and leave in the last phase");
    vx_check(quiet, "no signal leaves at an unused side");
    vx_check(constants, "conjunctions are fixed to 0, disjunctions to 1");
    vx_reach("molecules");
}
// blocks of cells
namespace
{
struct lib : fcn_gate_library<qca_technology, 3, 3>
{
    using G = fcn_gate;
};
}  // namespace
VX_ENTRY(gl_blocks)
{
    using G = lib::G;
    const auto bit = [](const char* n) { return vx_bool(n) ? qt::NORMAL : qt::EMPTY; };
    G g{}, h{};
    for (unsigned y = 0; y < 3; ++y)
        for (unsigned x = 0; x < 3; ++x)
        {
            g[y][x] = static_cast<qt>(vx_u8(nm("g", 3 * y + x)));
            h[y][x] = (x == y || x == 2) ? bit(nm("h", 3 * y + x)) : qt::CONST_1;
        }
    const auto r = lib::rotate_90(g), s = lib::rotate_180(g), t = lib::rotate_270(g), m = lib::merge({g, h});
    bool       rot = true, mer = true;
    for (unsigned y = 0; y < 3; ++y)
        for (unsigned x = 0; x < 3; ++x)
        {
            // clockwise: what was at the top is at the right
            rot = rot & (r[x][2 - y] == g[y][x]) & (s[2 - y][2 - x] == g[y][x]) & (t[2 - x][y] == g[y][x]);
            mer = mer & (m[y][x] == (h[y][x] != qt::EMPTY ? h[y][x] : g[y][x]));
        }
    vx_check(rot, "blocks are rotated clockwise");
    vx_check(mer, "merged blocks hold the cells of both");
    const auto px = static_cast<std::uint16_t>(pick("x", 0, 2)), py = static_cast<std::uint16_t>(pick("y", 0, 2));
    const auto k  = lib::mark_cell(g, port_position{px, py}, qca_technology::cell_mark::INPUT);
    bool       mark = true;
    for (unsigned y = 0; y < 3; ++y)
        for (unsigned x = 0; x < 3; ++x)
            mark = mark & (k[y][x] == (x == px && y == py ? qt::INPUT : g[y][x]));
    vx_check(mark, "one cell is marked");
}
