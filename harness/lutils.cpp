// Defect surfaces and helpers that relate layouts, tiles and cells.
#include "vx.h"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/layout_utils.hpp>
#include <cstdint>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>
using namespace fiction;
namespace
{
using UC = offset::ucoord_t;
template <typename C>
using SIDB = cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<C>>>;
template <typename C>
using LAT = sidb_lattice<sidb_100_lattice, SIDB<C>>;
template <typename C>
using SURF = sidb_defect_surface<LAT<C>>;
const char* NM[6][4] = {{"x0", "y0", "z0", "t0"}, {"x1", "y1", "z1", "t1"}, {"x2", "y2", "z2", "t2"}, {"x3", "y3", "z3", "t3"}, {"x4", "y4", "z4", "t4"}, {"x5", "y5", "z5", "t5"}};
template <typename C>
C pos(int i, int lo, int hi)
{
    const auto x = static_cast<std::int32_t>(vx_irange(NM[i][0], lo, hi)), y = static_cast<std::int32_t>(vx_irange(NM[i][1], lo, hi));
    if constexpr (std::is_same_v<C, siqad::coord_t>)
        return C{x, y, static_cast<std::int32_t>(vx_range(NM[i][2], 0, 1))};
    else
        return C{x, y, 0};
}
sidb_defect_type dtype(int i)
{
    static const sidb_defect_type t[5] = {sidb_defect_type::NONE, sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::STEP_EDGE, sidb_defect_type::ARSENIC};
    return t[vx_concretize(vx_range(NM[i][3], 0, 4))];
}
struct entry
{
    UC               c;
    sidb_defect_type t;
    std::int8_t      q;
};
std::int8_t charge_of(sidb_defect_type t)
{
    return static_cast<std::int8_t>(t == sidb_defect_type::ARSENIC ? 1 : t == sidb_defect_type::SI_VACANCY || t == sidb_defect_type::DB ? -1 : 0);
}
void drop(std::vector<entry>& m, const UC& c)
{
    for (std::size_t i = 0; i < m.size(); ++i)
        if (m[i].c == c)
        {
            m.erase(m.begin() + static_cast<std::ptrdiff_t>(i));
            return;
        }
}
void change(SURF<UC>& s, std::vector<entry>& m, int i)
{
    const UC c = pos<UC>(2 * i, 0, 63), d = pos<UC>(2 * i + 1, 0, 63);
    if (vx_concretize(vx_range(i == 0 ? "move0" : i == 1 ? "move1" : "move2", 0, 1)) == 0)
    {
        const auto t = dtype(i);
        const auto q = charge_of(t);
        s.assign_sidb_defect(c, sidb_defect{t, q});
        drop(m, c);
        if (t != sidb_defect_type::NONE)
            m.push_back({c, t, q});
    }
    else
    {
        s.move_sidb_defect(c, d);
        for (std::size_t k = 0; k < m.size(); ++k)
            if (m[k].c == c)
            {
                auto e = m[k];
                drop(m, c);
                drop(m, d);
                e.c = d;
                m.push_back(e);
                break;
            }
    }
}
void compare(const SURF<UC>& s, const std::vector<entry>& m)
{
    std::size_t plus = 0, minus = 0;
    for (const auto& e : m)
    {
        plus += e.q > 0;
        minus += e.q < 0;
    }
    vx_check(s.num_defects() == m.size(), "the number of defects");
    vx_check(s.num_positively_charged_defects() == plus && s.num_negatively_charged_defects() == minus && s.num_charged_defects() == plus + minus && s.num_neutral_defects() == m.size() - plus - minus, "the numbers of charged and neutral defects");
    const UC   p{static_cast<std::int32_t>(vx_range("px", 0, 63)), static_cast<std::int32_t>(vx_range("py", 0, 63)), 0};
    entry      want{p, sidb_defect_type::NONE, 0};
    for (const auto& e : m)
        if (e.c == p)
            want = e;
    const auto d = s.get_sidb_defect(p);
    vx_check(d.type == want.t && (want.t == sidb_defect_type::NONE || d.charge == want.q), "the defect at a position is the last one put there");
    std::size_t n = 0;
    s.foreach_sidb_defect(
        [&](const auto& it)
        {
            ++n;
            bool found = false;
            for (const auto& e : m)
                found = found | ((e.c == it.first) & (e.t == it.second.type));
            vx_check(found, "iterating visits the defects");
        });
    vx_check(n == m.size(), "iterating visits each defect once");
}
}  // namespace
VX_ENTRY(sf_edit)
{
    SURF<UC>           s{UC{63, 63, 0}};
    std::vector<entry> m;
    for (int i = 0; i < static_cast<int>(VX_B(2, 3)); ++i)
        change(s, m, i);
    compare(s, m);
}
VX_ENTRY(sf_clone)
{
    SURF<UC>           s{UC{63, 63, 0}};
    std::vector<entry> m;
    change(s, m, 0);
    auto       c  = s.clone();
    auto       mc = m;
    const bool w  = vx_concretize(vx_range("which", 0, 1)) != 0;
    change(w ? c : s, w ? mc : m, 1);
    if (vx_concretize(vx_range("look", 0, 1)) != 0)
        compare(s, m);
    else
        compare(c, mc);
}
VX_ENTRY(sf_ignore)
{
    // ignored types are never recorded
    sidb_defect_surface_params ps{};
    ps.ignore.insert(sidb_defect_type::DB);
    SURF<UC>   s{UC{63, 63, 0}, ps};
    const UC   c = pos<UC>(0, 0, 63), d = pos<UC>(1, 0, 63);
    const auto t = dtype(0), u = dtype(1);
    s.assign_sidb_defect(c, sidb_defect{t, charge_of(t)});
    s.assign_sidb_defect(d, sidb_defect{u, charge_of(u)});
    const auto kept = [](sidb_defect_type v) { return v == sidb_defect_type::DB ? sidb_defect_type::NONE : v; };
    vx_check(s.get_sidb_defect(d).type == kept(u) && s.get_sidb_defect(c).type == (c == d ? kept(u) : kept(t)), "ignored defects are not recorded");
}
VX_ENTRY(sf_affected)
{
    // the positions within the extent of any defect, and inside the surface
    constexpr int M = 2;
    SURF<UC>   s{UC{M, M, 0}};
    const int  n = static_cast<int>(vx_concretize(vx_range("n", 0, VX_B(2, 2))));
    UC         c[2];
    bool       charged[2] = {false, false};
    for (int i = 0; i < n; ++i)
    {
        c[i] = pos<UC>(i, 0, i == 0 ? M : static_cast<int>(VX_B(1, 2)));
        c[i] = UC{static_cast<std::int32_t>(vx_concretize(c[i].x)), static_cast<std::int32_t>(vx_concretize(c[i].y)), 0};
        charged[i] = vx_concretize(vx_range(NM[i][3], 0, 1)) != 0;
        s.assign_sidb_defect(c[i], charged[i] ? sidb_defect{sidb_defect_type::SI_VACANCY, -1} : sidb_defect{sidb_defect_type::STEP_EDGE});
    }
    if (n == 2)
        vx_assume(c[0] != c[1]);
    const auto own = vx_concretize(vx_range("own", 0, 1)) != 0;
    const auto ch = vx_concretize(vx_range("ch", 0, 1)), cv = vx_concretize(vx_range("cv", 0, 1)), nh = vx_concretize(vx_range("nh", 0, 1)), nv = 1 - nh;
    using P        = std::optional<std::pair<std::uint16_t, std::uint16_t>>;
    using Q        = std::optional<std::pair<std::uint64_t, std::uint64_t>>;
    const P  oc = P{{static_cast<std::uint16_t>(ch), static_cast<std::uint16_t>(cv)}}, on = P{{static_cast<std::uint16_t>(nh), static_cast<std::uint16_t>(nv)}};
    const UC p = UC{static_cast<std::int32_t>(vx_range("px", 0, 15)), static_cast<std::int32_t>(vx_range("py", 0, 15)), 0};
    const auto hit = [&](int i)
    {
        const std::int64_t h = own ? static_cast<std::int64_t>(charged[i] ? ch : nh) : charged[i] ? SIDB_CHARGED_DEFECT_HORIZONTAL_SPACING : SIDB_NEUTRAL_DEFECT_HORIZONTAL_SPACING;
        const std::int64_t v = own ? static_cast<std::int64_t>(charged[i] ? cv : nv) : charged[i] ? SIDB_CHARGED_DEFECT_VERTICAL_SPACING : SIDB_NEUTRAL_DEFECT_VERTICAL_SPACING;
        const auto dx = static_cast<std::int64_t>(p.x) - static_cast<std::int64_t>(c[i].x), dy = static_cast<std::int64_t>(p.y) - static_cast<std::int64_t>(c[i].y);
        return (dx <= h) & (-dx <= h) & (dy <= v) & (-dy <= v) & (p.x <= M) & (p.y <= M);
    };
    const auto in = [&](const auto& set)
    {
        bool f = false;
        for (const auto& e : set)
            f = f | (e == p);
        return f;
    };
    bool any = false;
    for (int i = 0; i < n; ++i)
    {
        const auto one = own ? s.affected_sidbs(c[i], oc, on) : s.affected_sidbs(c[i]);
        vx_check(in(one) == hit(i), "the positions affected by a defect are those within its extent on the surface");
        any = any | hit(i);
    }
    const auto all = own ? s.all_affected_sidbs(Q{{ch, cv}}, Q{{nh, nv}}) : s.all_affected_sidbs();
    vx_check(in(all) == any, "the positions affected by any defect");
}
namespace
{
template <typename L>
L sample(int n, int lo, int hi, std::vector<cell<L>>& cs)
{
    static const sidb_technology::cell_type types[3] = {sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT};
    L l{};
    l.resize({hi, hi, 1});
    l.set_layout_name("lyt");
    l.set_tile_size_x(3);
    l.set_tile_size_y(5);
    for (int i = 0; i < n; ++i)
    {
        cs.push_back(pos<cell<L>>(i, lo, hi));
        for (int j = 0; j < i; ++j)
            vx_assume(cs[static_cast<std::size_t>(j)] != cs.back());
        l.assign_cell_type(cs.back(), types[i]);
    }
    if (n > 0)
        l.assign_cell_name(cs[0], "first");
    return l;
}
// row of an arbitrary coordinate in rows of dimers
template <typename C>
std::int64_t row(const C& c)
{
    if constexpr (std::is_same_v<C, siqad::coord_t>)
        return 2 * static_cast<std::int64_t>(c.y) + c.z;
    else
        return static_cast<std::int64_t>(c.y);
}
template <typename A, typename B, typename Map>
void same(const A& a, const B& b, const std::vector<cell<A>>& cs, const Map& map)
{
    vx_check(a.num_cells() == cs.size() && b.num_cells() == cs.size(), "no cell is lost or added");
    vx_check(b.num_pis() == a.num_pis() && b.num_pos() == a.num_pos(), "inputs and outputs are kept");
    for (const auto& c : cs)
        vx_check(b.get_cell_type(map(c)) == a.get_cell_type(c) && b.get_cell_name(map(c)) == a.get_cell_name(c), "every cell keeps its type and name at its place");
    vx_check(b.get_layout_name() == "lyt" && b.get_tile_size_x() == 3 && b.get_tile_size_y() == 5, "the layout keeps its name and tile sizes");
}
template <typename C>
void to_siqad(int lo)
{
    std::vector<C> cs;
    const auto     n = static_cast<int>(vx_concretize(vx_range("n", 0, 2)));
    const auto     l = sample<SIDB<C>>(n, lo, 99, cs);
    const auto     q = convert_layout_to_siqad_coordinates(l);
    const auto     f = [](const C& c)
    {
        const auto y = row(c);
        return siqad::coord_t{static_cast<std::int32_t>(c.x), static_cast<std::int32_t>(y >> 1), static_cast<std::int32_t>(y & 1)};
    };
    same(l, q, cs, f);
    const auto back = convert_layout_to_fiction_coordinates<SIDB<C>>(LAT<siqad::coord_t>{q});
    same(l, back, cs, [](const C& c) { return c; });
}
}  // namespace
VX_ENTRY(lu_siqad_u)
{
    to_siqad<UC>(0);
}
VX_ENTRY(lu_siqad_c)
{
    to_siqad<cube::coord_t>(-99);
}
VX_ENTRY(lu_fiction_u)
{
    // layouts with negative positions are shifted into the first quadrant
    using L = LAT<siqad::coord_t>;
    std::vector<siqad::coord_t> cs;
    const auto                  n = static_cast<int>(vx_concretize(vx_range("n", 0, 2)));
    const auto                  l = sample<L>(n, -50, 49, cs);
    const auto                  f = convert_layout_to_fiction_coordinates<LAT<UC>>(l);
    std::int64_t                dx = 0, dy = 0;
    bool                        neg = false;
    for (const auto& c : cs)
        neg = neg | (c.x < 0) | (c.y < 0);
    if (neg)
    {
        dx = cs[0].x;
        dy = cs[0].y;
        for (const auto& c : cs)
        {
            dx = std::min<std::int64_t>(dx, c.x);
            dy = std::min<std::int64_t>(dy, c.y);
        }
    }
    same(l, f, cs, [&](const siqad::coord_t& c) { return UC{static_cast<std::int32_t>(c.x - dx), static_cast<std::int32_t>(row(c) - 2 * dy), 0}; });
}
namespace
{
template <typename L>
void normalized(const L& l, const std::vector<cell<L>>& cs)
{
    const auto b = normalize_layout_coordinates(l);
    auto       dx = cs[0].x, dy = cs[0].y;
    for (const auto& c : cs)
    {
        dx = std::min(dx, c.x);
        dy = std::min(dy, c.y);
    }
    same(l, b, cs, [&](const auto& c) { return cell<L>{c.x - dx, c.y - dy, c.z}; });
    vx_check(b.x() == l.x() - dx && b.y() == l.y() - dy && b.z() == l.z(), "the size shrinks by the shift");
}
}  // namespace
VX_ENTRY(lu_normalize)
{
    std::vector<UC>             us;
    std::vector<cube::coord_t>  cs;
    std::vector<siqad::coord_t> qs;
    const int n = static_cast<int>(vx_concretize(vx_range("n", 1, VX_B(2, 3))));
    switch (vx_concretize(vx_range("kind", 0, 3)))
    {
        case 0: normalized(sample<SIDB<UC>>(n, 0, 99, us), us); break;
        case 1: normalized(sample<SIDB<cube::coord_t>>(n, -99, 99, cs), cs); break;
        case 2: normalized(sample<SIDB<siqad::coord_t>>(n, -99, 99, qs), qs); break;
        default:
        {
            // a crossing: two cells at the same place on different layers
            using Q = cell_level_layout<qca_technology, clocked_layout<cartesian_layout<UC>>>;
            Q         l{UC{99, 99, 1}, "lyt", 3, 5};
            const UC  a = pos<UC>(0, 0, 99), b{a.x, a.y, 1};
            l.assign_cell_type(a, qca_technology::cell_type::NORMAL);
            l.assign_cell_type(b, qca_technology::cell_type::INPUT);
            l.assign_cell_mode(b, qca_technology::cell_mode::CROSSOVER);
            normalized(l, {a, b});
            vx_check(normalize_layout_coordinates(l).get_cell_mode(UC{0, 0, 1}) == qca_technology::cell_mode::CROSSOVER, "every cell keeps its mode");
        }
    }
}
namespace
{
template <typename C>
void spanned()
{
    const int  lim = static_cast<int>(VX_B(1000, 100000));
    C          a = pos<C>(0, -lim, lim);
    if constexpr (std::is_same_v<C, siqad::coord_t>)
    {
        vx_assume((a.y >= -static_cast<int>(VX_B(2, 9))) & (a.y <= static_cast<int>(VX_B(2, 9))));
        a.y = static_cast<std::int32_t>(vx_concretize(static_cast<std::uint64_t>(static_cast<std::int64_t>(a.y))));
        a.z = static_cast<std::int32_t>(vx_concretize(static_cast<std::uint64_t>(a.z)));
    }
    const int  w = static_cast<int>(vx_concretize(vx_irange("w", -2, 2))), h = static_cast<int>(vx_concretize(vx_irange("h", -2, 2)));
    C          b;
    const auto by = row(a) + h;
    if constexpr (std::is_same_v<C, siqad::coord_t>)
        b = C{a.x + w, static_cast<std::int32_t>(by >> 1), static_cast<std::int32_t>(by & 1)};
    else
        b = C{a.x + w, static_cast<std::int32_t>(by), 0};
    const auto all = all_coordinates_in_spanned_area(a, b);
    const auto aw = static_cast<std::size_t>(w < 0 ? -w : w) + 1, ah = static_cast<std::size_t>(h < 0 ? -h : h) + 1;
    vx_check(all.size() == aw * ah, "every position of the area is listed once");
    const auto x0 = std::min(a.x, b.x);
    const auto y0 = std::min(row(a), row(b));
    for (std::size_t i = 0; i < all.size(); ++i)
        vx_check(static_cast<std::int64_t>(all[i].x) == static_cast<std::int64_t>(x0) + static_cast<std::int64_t>(i % aw) && row(all[i]) == y0 + static_cast<std::int64_t>(i / aw), "positions are listed row by row");
}
}  // namespace
VX_ENTRY(lu_spanned)
{
    if (vx_concretize(vx_range("kind", 0, 1)) == 0)
        spanned<siqad::coord_t>();
    else
        spanned<cube::coord_t>();
}
namespace
{
template <typename Gate, int X, int Y, typename Ox, typename Oy>
void absolute(const Ox& ox, const Oy& oy)
{
    using Cell = cell_level_layout<qca_technology, clocked_layout<cartesian_layout<UC>>>;
    const Gate g{UC{15, 15, 1}};
    const auto tx = vx_range("tx", 0, VX_B(1000, 1000000)), ty = vx_range("ty", 0, VX_B(1000, 1000000)), tz = vx_range("tz", 0, 1), rx = vx_range("rx", 0, X - 1), ry = vx_range("ry", 0, Y - 1);
    const UC   t{static_cast<std::int32_t>(tx), static_cast<std::int32_t>(ty), static_cast<std::int32_t>(tz)}, r{static_cast<std::int32_t>(rx), static_cast<std::int32_t>(ry), 0};
    const auto c = relative_to_absolute_cell_position<X, Y, Gate, Cell>(g, t, r);
    vx_check(static_cast<std::uint64_t>(c.x) == ox(tx, ty) + rx && static_cast<std::uint64_t>(c.y) == oy(tx, ty) + ry && static_cast<std::uint64_t>(c.z) == tz, "a cell is at its tile's origin plus its position in the tile");
}
using u64 = std::uint64_t;
template <typename O>
using HEX = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<UC, O>>>>;
template <typename O>
using SHIFT = gate_level_layout<clocked_layout<tile_based_layout<shifted_cartesian_layout<UC, O>>>>;
}  // namespace
VX_ENTRY(lu_absolute)
{
    using CG = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<UC>>>>;
    switch (vx_concretize(vx_range("kind", 0, 8)))
    {
        case 0: absolute<CG, 5, 7>([](u64 x, u64) { return 5 * x; }, [](u64, u64 y) { return 7 * y; }); break;
        case 1: absolute<HEX<odd_row_hex>, 60, 46>([](u64 x, u64 y) { return 60 * x + 30 * (y & 1); }, [](u64, u64 y) { return 34 * y; }); break;
        case 2: absolute<HEX<even_row_hex>, 60, 46>([](u64 x, u64 y) { return 60 * x + 30 * (1 - (y & 1)); }, [](u64, u64 y) { return 34 * y; }); break;
        case 3: absolute<HEX<odd_column_hex>, 60, 46>([](u64 x, u64) { return 45 * x; }, [](u64 x, u64 y) { return 46 * y + 23 * (x & 1); }); break;
        case 4: absolute<HEX<even_column_hex>, 60, 46>([](u64 x, u64) { return 45 * x; }, [](u64 x, u64 y) { return 46 * y + 23 * (1 - (x & 1)); }); break;
        case 5: absolute<SHIFT<odd_row_cartesian>, 8, 6>([](u64 x, u64 y) { return 8 * x + 4 * (y & 1); }, [](u64, u64 y) { return 6 * y; }); break;
        case 6: absolute<SHIFT<even_row_cartesian>, 8, 6>([](u64 x, u64 y) { return 8 * x + 4 * (1 - (y & 1)); }, [](u64, u64 y) { return 6 * y; }); break;
        case 7: absolute<SHIFT<odd_column_cartesian>, 8, 6>([](u64 x, u64) { return 8 * x; }, [](u64 x, u64 y) { return 6 * y + 3 * (x & 1); }); break;
        default: absolute<SHIFT<even_column_cartesian>, 8, 6>([](u64 x, u64) { return 8 * x; }, [](u64 x, u64 y) { return 6 * y + 3 * (1 - (x & 1)); });
    }
}
VX_ENTRY(lu_ports)
{
    // the coordinate behind a port is the neighbour in that direction
    const cartesian_layout<UC>               l{UC{99, 99, 1}};
    const hexagonal_layout<UC, even_row_hex> h{UC{99, 99, 1}};
    const UC c{static_cast<std::int32_t>(vx_range("x", 1, 98)), static_cast<std::int32_t>(vx_range("y", 1, 98)), static_cast<std::int32_t>(vx_range("z", 0, 1))};
    using D = port_direction::cardinal;
    const auto to = [&](D d) { return port_direction_to_coordinate(l, c, port_direction(d)); };
    vx_check(to(D::NORTH) == UC{c.x, c.y - 1, c.z} && to(D::EAST) == UC{c.x + 1, c.y, c.z} && to(D::SOUTH) == UC{c.x, c.y + 1, c.z} && to(D::WEST) == UC{c.x - 1, c.y, c.z}, "neighbours behind the sides");
    vx_check(to(D::NORTH_EAST) == UC{c.x + 1, c.y - 1, c.z} && to(D::SOUTH_EAST) == UC{c.x + 1, c.y + 1, c.z} && to(D::SOUTH_WEST) == UC{c.x - 1, c.y + 1, c.z} && to(D::NORTH_WEST) == UC{c.x - 1, c.y - 1, c.z}, "neighbours behind the corners");
    const auto hx = [&](D d) { return port_direction_to_coordinate(h, c, port_direction(d)); };
    vx_check(hx(D::NORTH_EAST) == h.north_east(c) && hx(D::SOUTH_WEST) == h.south_west(c) && hx(D::NORTH_WEST) == h.north_west(c) && hx(D::SOUTH_EAST) == h.south_east(c) && hx(D::EAST) == h.east(c), "neighbours behind hexagonal sides");
    vx_check(num_adjacent_coordinates(l, c) == 4 && num_adjacent_coordinates(h, c) == 6, "inner positions have all neighbours");
}
namespace
{
SURF<UC> two(std::vector<UC>& cs, const char* const* types, const char* dt, int base)
{
    static const sidb_technology::cell_type t[3] = {sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::EMPTY};
    SURF<UC> s{UC{63, 63, 0}};
    for (int i = 0; i < 2; ++i)
    {
        const UC c = pos<UC>(base + i, 0, 63);
        cs.push_back(c);
        s.assign_cell_type(c, t[vx_concretize(vx_range(types[i], 0, 2))]);
    }
    if (vx_concretize(vx_range(dt, 0, 1)) != 0)
        s.assign_sidb_defect(cs[0], sidb_defect{sidb_defect_type::DB, -1});
    return s;
}
}  // namespace
VX_ENTRY(lu_identical)
{
    // identical layouts are those with the same cells and defects, and have equal digests
    static const char* ta[2] = {"a0", "a1"};
    static const char* tb[2] = {"b0", "b1"};
    std::vector<UC> ca, cb;
    const auto      a = two(ca, ta, "da", 0), b = two(cb, tb, "db", 2);
    bool same = a.num_cells() == b.num_cells() && a.num_defects() == b.num_defects();
    for (const auto& c : ca)
        same = same && a.get_cell_type(c) == b.get_cell_type(c) && a.get_sidb_defect(c).type == b.get_sidb_defect(c).type;
    for (const auto& c : cb)
        same = same && a.get_cell_type(c) == b.get_cell_type(c) && a.get_sidb_defect(c).type == b.get_sidb_defect(c).type;
    vx_check(are_cell_layouts_identical(a, b) == same, "layouts are identical exactly when their cells and defects are");
}
VX_ENTRY(lu_digest)
{
    // the digest does not depend on the order in which cells and defects were placed
    const UC c = pos<UC>(0, 0, 63), d = pos<UC>(1, 0, 63);
    vx_assume(c != d);
    SURF<UC> a{UC{63, 63, 0}}, b{UC{63, 63, 0}};
    const sidb_defect e{sidb_defect_type::DB, -1}, f{sidb_defect_type::STEP_EDGE};
    a.assign_cell_type(c, sidb_technology::cell_type::NORMAL);
    a.assign_cell_type(d, sidb_technology::cell_type::INPUT);
    a.assign_sidb_defect(c, e);
    a.assign_sidb_defect(d, f);
    b.assign_cell_type(d, sidb_technology::cell_type::OUTPUT);
    b.assign_cell_type(d, sidb_technology::cell_type::INPUT);
    b.assign_cell_type(c, sidb_technology::cell_type::NORMAL);
    b.assign_sidb_defect(d, f);
    b.assign_sidb_defect(c, e);
    vx_check(are_cell_layouts_identical(a, b) && cell_layout_digest(a) == cell_layout_digest(b), "identical layouts have equal digests");
}
