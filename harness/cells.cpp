// Cell-level layouts, bounding boxes and obstructions under operation sequences.
#include "vx.h"
#include <fiction/layouts/bounding_box.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/traits.hpp>
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <string>
#include <type_traits>
#include <vector>
using namespace fiction;
namespace
{
using UC   = offset::ucoord_t;
using CART = clocked_layout<cartesian_layout<UC>>;
template <typename Tech>
using CELL = cell_level_layout<Tech, CART>;
constexpr int W = 7;
template <typename Tech>
struct techs;
template <>
struct techs<qca_technology>
{
    static constexpr qca_technology::cell_type types[]{qca_technology::cell_type::EMPTY, qca_technology::cell_type::NORMAL, qca_technology::cell_type::INPUT, qca_technology::cell_type::OUTPUT, qca_technology::cell_type::CONST_0, qca_technology::cell_type::CONST_1};
    static constexpr qca_technology::cell_mode modes[]{qca_technology::cell_mode::NORMAL, qca_technology::cell_mode::ROTATED, qca_technology::cell_mode::VERTICAL, qca_technology::cell_mode::CROSSOVER};
};
template <>
struct techs<mol_qca_technology>
{
    static constexpr mol_qca_technology::cell_type types[]{mol_qca_technology::cell_type::EMPTY, mol_qca_technology::cell_type::NORMAL1, mol_qca_technology::cell_type::INPUT, mol_qca_technology::cell_type::OUTPUT, mol_qca_technology::cell_type::CONST_0, mol_qca_technology::cell_type::CONST_1};
    static constexpr mol_qca_technology::cell_mode modes[]{mol_qca_technology::cell_mode::NORMAL, mol_qca_technology::cell_mode::ROTATED, mol_qca_technology::cell_mode::VERTICAL, mol_qca_technology::cell_mode::CROSSOVER};
};
template <>
struct techs<inml_technology>
{
    static constexpr inml_technology::cell_type types[]{inml_technology::cell_type::EMPTY, inml_technology::cell_type::NORMAL, inml_technology::cell_type::INPUT, inml_technology::cell_type::OUTPUT, inml_technology::cell_type::INVERTER_MAGNET, inml_technology::cell_type::FANOUT_COUPLER_MAGNET};
    static constexpr inml_technology::cell_mode modes[]{{}};
};
template <>
struct techs<sidb_technology>
{
    static constexpr sidb_technology::cell_type types[]{sidb_technology::cell_type::EMPTY, sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT, sidb_technology::cell_type::LOGIC, sidb_technology::cell_type::NORMAL};
    static constexpr sidb_technology::cell_mode modes[]{{}};
};
UC cellpos(const char* nx, const char* ny, const char* nz)
{
    const auto x = vx_range(nx, 0, W), y = vx_range(ny, 0, W), z = vx_range(nz, 0, 1);
    return UC{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(z)};
}
// reference: a list of cells
template <typename Tech>
struct model
{
    struct cell
    {
        UC                       c;
        typename Tech::cell_type t;
    };
    struct mode
    {
        UC                       c;
        typename Tech::cell_mode m;
    };
    struct name
    {
        UC          c;
        std::string n;
    };
    std::vector<cell> cells;
    std::vector<mode> modes;
    std::vector<name> names;
    template <typename V>
    static void drop(V& v, const UC& c)
    {
        for (std::size_t i = 0; i < v.size(); ++i)
            if (v[i].c == c)
            {
                v.erase(v.begin() + static_cast<std::ptrdiff_t>(i));
                return;
            }
    }
    void type(const UC& c, typename Tech::cell_type t)
    {
        drop(cells, c);
        if (t == Tech::cell_type::EMPTY)
            drop(modes, c);
        else
            cells.push_back({c, t});
    }
    std::size_t count(typename Tech::cell_type t) const
    {
        std::size_t k = 0;
        for (const auto& e : cells)
            k += e.t == t;
        return k;
    }
    typename Tech::cell_type type_of(const UC& c) const
    {
        for (const auto& e : cells)
            if (e.c == c)
                return e.t;
        return Tech::cell_type::EMPTY;
    }
};
template <typename Tech>
void step(CELL<Tech>& l, model<Tech>& m, int i)
{
    const char* nm[4][5] = {{"op0", "x0", "y0", "z0", "v0"}, {"op1", "x1", "y1", "z1", "v1"}, {"op2", "x2", "y2", "z2", "v2"}, {"op3", "x3", "y3", "z3", "v3"}};
    const UC    c = cellpos(nm[i][1], nm[i][2], nm[i][3]);
    switch (vx_concretize(vx_range(nm[i][0], 0, 2)))
    {
        case 0:
        {
            const auto k = vx_concretize(vx_range(nm[i][4], 0, 5));
            l.assign_cell_type(c, techs<Tech>::types[k]);
            m.type(c, techs<Tech>::types[k]);
            break;
        }
        case 1:
        {
            const auto k = vx_concretize(vx_range(nm[i][4], 0, std::size(techs<Tech>::modes) - 1));
            l.assign_cell_mode(c, techs<Tech>::modes[k]);
            m.drop(m.modes, c);
            if (k != 0)
                m.modes.push_back({c, techs<Tech>::modes[k]});
            break;
        }
        default:
        {
            const std::string names[3] = {"", "a", "out"};
            const auto        k        = vx_concretize(vx_range(nm[i][4], 0, 2));
            l.assign_cell_name(c, names[k]);
            m.drop(m.names, c);
            if (k != 0)
                m.names.push_back({c, names[k]});
        }
    }
}
template <typename Tech>
void compare(const CELL<Tech>& l, const model<Tech>& m)
{
    vx_check(l.num_cells() == m.cells.size() && l.is_empty() == m.cells.empty(), "the number of cells");
    vx_check(l.num_pis() == m.count(Tech::cell_type::INPUT) && l.num_pos() == m.count(Tech::cell_type::OUTPUT), "the numbers of inputs and outputs");
    // an arbitrary position
    const UC   p    = cellpos("px", "py", "pz");
    const auto type = m.type_of(p);
    vx_check(l.get_cell_type(p) == type && l.is_empty_cell(p) == (type == Tech::cell_type::EMPTY), "the type of a cell is the last one assigned");
    vx_check(l.is_pi(p) == (type == Tech::cell_type::INPUT) && l.is_po(p) == (type == Tech::cell_type::OUTPUT), "inputs and outputs are the cells of these types");
    if constexpr (std::is_enum_v<typename Tech::cell_mode>)
    {
        auto mode = techs<Tech>::modes[0];
        for (const auto& e : m.modes)
            if (e.c == p)
                mode = e.m;
        vx_check(l.get_cell_mode(p) == mode, "the mode of a cell is the last one assigned");
    }
    std::string name;
    for (const auto& e : m.names)
        if (e.c == p)
            name = e.n;
    vx_check(l.get_cell_name(p) == name, "the name of a cell is the last one assigned");
    // iterations
    const auto visits = [&](const auto& each, const auto& pred, const char* what)
    {
        std::size_t k = 0, hits = 0;
        each(
            [&](const auto& c)
            {
                ++k;
                const auto t = m.type_of(c);
                vx_check(pred(t), what);
                hits += c == p;
            });
        std::size_t want = 0;
        for (const auto& e : m.cells)
            want += pred(e.t);
        vx_check(k == want && hits == (pred(type) ? 1u : 0u), what);
    };
    visits([&](auto&& f) { l.foreach_cell(f); }, [](auto t) { return t != Tech::cell_type::EMPTY; }, "iterating the cells visits each of them once");
    visits([&](auto&& f) { l.foreach_pi(f); }, [](auto t) { return t == Tech::cell_type::INPUT; }, "iterating the inputs visits each of them once");
    visits([&](auto&& f) { l.foreach_po(f); }, [](auto t) { return t == Tech::cell_type::OUTPUT; }, "iterating the outputs visits each of them once");
    for (const auto t : techs<Tech>::types)
        if (t != Tech::cell_type::EMPTY)
        {
            visits(
                [&](auto&& f)
                {
                    for (const auto& c : l.get_cells_by_type(t))
                        f(c);
                },
                [t](auto u) { return u == t; }, "cells of a type");
            vx_check(l.num_cells_of_given_type(t) == m.count(t), "the number of cells of a type");
        }
}
template <typename Tech>
void sequence(int len)
{
    CELL<Tech>  l{UC{W, W, 1}, "lyt", 2, 3};
    model<Tech> m;
    for (int i = 0; i < len; ++i)
        step(l, m, i);
    compare(l, m);
    vx_check(l.get_layout_name() == "lyt" && l.get_tile_size_x() == 2 && l.get_tile_size_y() == 3, "names and tile sizes are those given");
}
}  // namespace
VX_ENTRY(cl_qca)
{
    sequence<qca_technology>(static_cast<int>(VX_B(2, 3)));
}
VX_ENTRY(cl_mol)
{
    sequence<mol_qca_technology>(static_cast<int>(VX_B(2, 2)));
}
VX_ENTRY(cl_inml)
{
    sequence<inml_technology>(static_cast<int>(VX_B(2, 3)));
}
VX_ENTRY(cl_sidb)
{
    sequence<sidb_technology>(static_cast<int>(VX_B(2, 3)));
}
VX_ENTRY(cl_clone)
{
    // changes of a clone and of its original are independent
    using L = CELL<qca_technology>;
    L                     l{UC{W, W, 1}, "lyt", 2, 2};
    model<qca_technology> m;
    step(l, m, 0);
    auto mc = m;
    L    c  = l.clone();
    const bool which = vx_concretize(vx_range("which", 0, 1)) != 0;
    step(which ? c : l, which ? mc : m, 1);
    c.set_layout_name("copy");
    c.set_tile_size_x(4);
    l.set_tile_size_y(5);
    vx_check(l.get_layout_name() == "lyt" && c.get_layout_name() == "copy" && l.get_tile_size_x() == 2 && c.get_tile_size_x() == 4 && l.get_tile_size_y() == 5 && c.get_tile_size_y() == 2, "layouts have their own names and tile sizes");
    if (vx_bool("look"))
        compare(l, m);
    else
        compare(c, mc);
}
VX_ENTRY(cl_clock)
{
    // the clock number of a cell is that of its tile
    using L       = CELL<qca_technology>;
    const auto tx = static_cast<std::uint16_t>(vx_range("tx", 1, 8)), ty = static_cast<std::uint16_t>(vx_range("ty", 1, 8));
    const auto cx = vx_concretize(tx), cy = vx_concretize(ty);
    const int  k  = static_cast<int>(vx_concretize(vx_range("scheme", 0, 2)));
    const auto s  = k == 0 ? twoddwave_clocking<L>() : k == 1 ? use_clocking<L>() : open_clocking<L>(num_clks::FOUR);
    L          l{UC{1023, 1023, 1}, s, "lyt", static_cast<std::uint16_t>(cx), static_cast<std::uint16_t>(cy)};
    const UC   over{static_cast<std::int32_t>(vx_range("ox", 0, 15)), static_cast<std::int32_t>(vx_range("oy", 0, 15)), 0};
    if (k == 2)
        l.assign_clock_number(over, 3);
    const auto x = vx_range("x", 0, VX_B(127, 1023)), y = vx_range("y", 0, VX_B(127, 1023));
    const UC   c{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), 0};
    const UC   t{static_cast<std::int32_t>(x / cx), static_cast<std::int32_t>(y / cy), 0};
    static const unsigned cut[4][4] = {{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}};
    unsigned want = 0;
    if (k == 0)
        want = (static_cast<unsigned>(t.x) + static_cast<unsigned>(t.y)) % 4;
    else if (k == 1)
        want = cut[t.y % 4][t.x % 4];
    else
        want = t == over ? 3 : 0;
    vx_check(l.get_clock_number(c) == want, "the clock number of a cell is that of its tile");
}
namespace
{
template <typename L>
void boxed(const L& l, const std::vector<UC>& used)
{
    bounding_box_2d<L> b{l};
    const auto look = [&]
    {
        if (used.empty())
        {
            vx_check(b.get_min() == UC{0, 0} && b.get_max() == UC{0, 0}, "the box of an empty layout is empty");
            return;
        }
        auto x0 = used[0].x, x1 = used[0].x, y0 = used[0].y, y1 = used[0].y;
        for (const auto& u : used)
        {
            x0 = std::min(x0, u.x);
            x1 = std::max(x1, u.x);
            y0 = std::min(y0, u.y);
            y1 = std::max(y1, u.y);
        }
        vx_check(b.get_min().x == x0 && b.get_min().y == y0 && b.get_max().x == x1 && b.get_max().y == y1, "the box touches the outermost elements on every side");
        vx_check(b.get_x_size() == static_cast<std::uint64_t>(x1 - x0) && b.get_y_size() == static_cast<std::uint64_t>(y1 - y0), "the size of the box");
    };
    look();
    b.update_bounding_box();
    look();
}
}  // namespace
VX_ENTRY(bb_cells)
{
    using L = CELL<qca_technology>;
    L         l{UC{W, W, 1}};
    const int n = static_cast<int>(vx_concretize(vx_range("n", 0, VX_B(2, 3))));
    const char* nm[3][3] = {{"x0", "y0", "z0"}, {"x1", "y1", "z1"}, {"x2", "y2", "z2"}};
    std::vector<UC> used;
    for (int i = 0; i < n; ++i)
    {
        const UC c = cellpos(nm[i][0], nm[i][1], nm[i][2]);
        l.assign_cell_type(c, qca_technology::cell_type::NORMAL);
        used.push_back(c);
    }
    boxed(l, used);
}
namespace
{
// boxes around SiDBs and defects in SiQAD coordinates
template <typename C>
C sidbpos(const char* nx, const char* ny, const char* nz)
{
    const auto x = static_cast<std::int32_t>(vx_irange(nx, -1000, 1000)), y = static_cast<std::int32_t>(vx_irange(ny, -1000, 1000));
    if constexpr (std::is_same_v<C, siqad::coord_t>)
        return C{x, y, static_cast<std::int32_t>(vx_range(nz, 0, 1))};
    else
        return C{x, y, 0};
}
template <typename C>
std::int32_t row(const C& c)
{
    if constexpr (std::is_same_v<C, siqad::coord_t>)
        return 2 * c.y + c.z;
    else
        return c.y;
}
template <typename C>
void sidb_boxes()
{
    using L = sidb_defect_surface<sidb_lattice<sidb_100_lattice, cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<C>>>>>;
    L              l{};
    std::vector<C> used;
    const int      n = static_cast<int>(vx_concretize(vx_range("n", 0, 2))), d = static_cast<int>(vx_concretize(vx_range("d", 0, 1)));
    const char*    nm[3][3] = {{"x0", "y0", "z0"}, {"x1", "y1", "z1"}, {"x2", "y2", "z2"}};
    for (int i = 0; i < n; ++i)
    {
        used.push_back(sidbpos<C>(nm[i][0], nm[i][1], nm[i][2]));
        l.assign_cell_type(used.back(), sidb_technology::cell_type::NORMAL);
    }
    for (int i = 0; i < d; ++i)
    {
        used.push_back(sidbpos<C>(nm[2][0], nm[2][1], nm[2][2]));
        l.assign_sidb_defect(used.back(), sidb_defect{sidb_defect_type::DB});
    }
    const bounding_box_2d<L> b{l};
    if (used.empty())
    {
        vx_check(b.get_min() == C{0, 0} && b.get_max() == C{0, 0}, "the box of an empty layout is empty");
        return;
    }
    auto x0 = used[0].x, x1 = used[0].x, y0 = row(used[0]), y1 = row(used[0]);
    for (const auto& u : used)
    {
        x0 = std::min(x0, u.x);
        x1 = std::max(x1, u.x);
        y0 = std::min(y0, row(u));
        y1 = std::max(y1, row(u));
    }
    vx_check(b.get_min().x == x0 && row(b.get_min()) == y0 && b.get_max().x == x1 && row(b.get_max()) == y1, "the box touches the outermost dots and defects on every side");
    vx_check(b.get_x_size() == x1 - x0, "the width of the box");
}
}  // namespace
VX_ENTRY(bb_siqad)
{
    sidb_boxes<siqad::coord_t>();
}
VX_ENTRY(bb_cube)
{
    sidb_boxes<cube::coord_t>();
}
VX_ENTRY(bb_cleared)
{
    // boxes follow the layout when updated, also back to nothing
    using L = CELL<qca_technology>;
    L                  l{UC{W, W, 1}};
    const UC           c = cellpos("cx", "cy", "cz"), d = cellpos("dx", "dy", "dz");
    l.assign_cell_type(c, qca_technology::cell_type::NORMAL);
    l.assign_cell_type(d, qca_technology::cell_type::INPUT);
    bounding_box_2d<L> b{l};
    l.assign_cell_type(c, qca_technology::cell_type::EMPTY);
    if (vx_concretize(vx_range("twice", 0, 1)) != 0)
    {
        b.update_bounding_box();
        if (c != d)
            vx_check(b.get_min().x == d.x && b.get_min().y == d.y && b.get_max().x == d.x && b.get_max().y == d.y && b.get_x_size() == 0 && b.get_y_size() == 0, "an updated box is that of the current layout");
    }
    l.assign_cell_type(d, qca_technology::cell_type::EMPTY);
    b.update_bounding_box();
    vx_check(b.get_min() == UC{0, 0, 0} && b.get_max() == UC{0, 0, 0} && b.get_x_size() == 0 && b.get_y_size() == 0, "the box of an emptied layout is empty");
}
VX_ENTRY(bb_gates)
{
    using G = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<UC>>>>;
    G         l{UC{2, 2, 1}, open_clocking<G>(num_clks::FOUR)};
    const int n = static_cast<int>(vx_concretize(vx_range("n", 0, 2)));
    const char* nm[2][3] = {{"x0", "y0", "z0"}, {"x1", "y1", "z1"}};
    std::vector<UC> used;
    for (int i = 0; i < n; ++i)
    {
        const UC c{static_cast<std::int32_t>(vx_range(nm[i][0], 0, 2)), static_cast<std::int32_t>(vx_range(nm[i][1], 0, 2)), static_cast<std::int32_t>(vx_range(nm[i][2], 0, 1))};
        l.create_pi("", c);
        used.push_back(c);
    }
    boxed(l, used);
}
namespace
{
// obstructions: sets of positions and of connections
template <typename L, typename Occupied, typename Connected>
void obstructions(obstruction_layout<L>& l, const Occupied& occ, const Connected& conn, int len)
{
    const char* nm[3][7] = {{"op0", "x0", "y0", "z0", "u0", "v0", "w0"}, {"op1", "x1", "y1", "z1", "u1", "v1", "w1"}, {"op2", "x2", "y2", "z2", "u2", "v2", "w2"}};
    const UC p = cellpos("px", "py", "pz"), q = cellpos("qx", "qy", "qz");
    bool     op = false, oc = false;
    for (int i = 0; i < len; ++i)
    {
        const UC a = cellpos(nm[i][1], nm[i][2], nm[i][3]), b = cellpos(nm[i][4], nm[i][5], nm[i][6]);
        switch (vx_concretize(vx_range(nm[i][0], 0, 5)))
        {
            case 0: l.obstruct_coordinate(a); op = op | (a == p); break;
            case 1: l.clear_obstructed_coordinate(a); op = op & !(a == p); break;
            case 2: l.obstruct_connection(a, b); oc = oc | ((a == p) & (b == q)); break;
            case 3: l.clear_obstructed_connection(a, b); oc = oc & !((a == p) & (b == q)); break;
            case 4: l.clear_obstructed_coordinates(); op = false; break;
            default: l.clear_obstructed_connections(); oc = false;
        }
    }
    vx_check(l.is_obstructed_coordinate(p) == (op | occ(p)), "exactly the obstructed and occupied positions are obstructed");
    vx_check(l.is_obstructed_connection(p, q) == (oc | conn(p, q)), "exactly the obstructed and used connections are obstructed, per direction");
}
}  // namespace
VX_ENTRY(obs_plain)
{
    using L = cartesian_layout<UC>;
    obstruction_layout<L> l{L{UC{W, W, 1}}};
    obstructions(l, [](const UC&) { return false; }, [](const UC&, const UC&) { return false; }, static_cast<int>(VX_B(2, 3)));
}
VX_ENTRY(obs_cells)
{
    using L = CELL<qca_technology>;
    L        b{UC{W, W, 1}};
    const UC c = cellpos("cx", "cy", "cz");
    b.assign_cell_type(c, qca_technology::cell_type::NORMAL);
    obstruction_layout<L> l{b};
    obstructions(l, [&](const UC& p) { return p == c; }, [](const UC&, const UC&) { return false; }, static_cast<int>(VX_B(1, 2)));
}
VX_ENTRY(obs_gates)
{
    using G = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<UC>>>>;
    G        b{UC{W, W, 1}, twoddwave_clocking<G>()};
    const UC c{2, 2, 0}, d{3, 2, 0}, e{3, 3, 0};
    const auto s = b.create_buf(b.create_pi("", c), d);
    b.create_po(s, "", e);
    obstruction_layout<G> l{b};
    obstructions(
        l, [&](const UC& p) { return (p == c) | (p == d) | (p == e); },
        [&](const UC& p, const UC& q)
        {
            // signals are looked up regardless of the layer at their far end
            const auto same = [](const UC& a, const UC& b) { return (a.x == b.x) & (a.y == b.y); };
            const auto edge = [&](const UC& a, const UC& b) { return same(p, a) & same(q, b) & ((p == a) | (q == b)); };
            return edge(c, d) | edge(d, e);
        }, static_cast<int>(VX_B(1, 2)));
}
