// Coordinate layouts, clocking schemes, clocked layouts.
#include "vx.h"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>
#include <string>
#include <vector>
using namespace fiction;
namespace
{
std::uint64_t big()
{
    return VX_B(1u << 8, 1u << 14);
}
template <typename C>
C dim(std::uint64_t lim = big())
{
    const auto x = vx_range("ar.x", 0, lim);
    const auto y = vx_range("ar.y", 0, lim);
    const auto z = vx_range("ar.z", 0, 1);
    return C{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(z)};
}
template <typename C>
C pos(const C& ar, const char* nx = "c.x", const char* ny = "c.y", const char* nz = "c.z")
{
    const auto x = vx_range(nx, 0, big());
    const auto y = vx_range(ny, 0, big());
    const auto z = vx_range(nz, 0, 1);
    C          c{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(z)};
    vx_assume((c.x <= ar.x) & (c.y <= ar.y) & (c.z <= ar.z));
    return c;
}
// the position displaced by (dx, dy), or the same one if that leaves the layout
template <typename C>
C moved(const C& ar, const C& c, int dx, int dy)
{
    const std::int64_t x = static_cast<std::int64_t>(c.x) + dx, y = static_cast<std::int64_t>(c.y) + dy;
    if ((x < 0) | (y < 0) | (x > static_cast<std::int64_t>(ar.x)) | (y > static_cast<std::int64_t>(ar.y)))
        return c;
    return C{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(c.z)};
}
template <typename C>
C raised(const C& ar, const C& c, int dz)
{
    const std::int64_t z = static_cast<std::int64_t>(c.z) + dz;
    if ((z < 0) | (z > static_cast<std::int64_t>(ar.z)))
        return c;
    return C{static_cast<std::int32_t>(c.x), static_cast<std::int32_t>(c.y), static_cast<std::int32_t>(z)};
}
template <typename C>
bool listed(const std::vector<C>& v, const C& c)
{
    bool r = false;
    for (const auto& e : v)
        r = r | (e == c);
    return r;
}
template <typename L>
void cardinal_common(const L& l, const typename L::coordinate& ar, const typename L::coordinate& c)
{
    vx_check(l.x() == ar.x && l.y() == ar.y && l.z() == ar.z, "the layout has its aspect ratio");
    vx_check(l.north(c) == moved(ar, c, 0, -1), "north");
    vx_check(l.south(c) == moved(ar, c, 0, 1), "south");
    vx_check(l.east(c) == moved(ar, c, 1, 0), "east");
    vx_check(l.west(c) == moved(ar, c, -1, 0), "west");
    vx_check(l.above(c) == raised(ar, c, 1), "above");
    vx_check(l.below(c) == raised(ar, c, -1), "below");
    const auto d = pos(ar, "d.x", "d.y", "d.z");
    const bool line_x = (c.y == d.y) & (c.z == d.z), line_y = (c.x == d.x) & (c.z == d.z);
    const auto cx = static_cast<std::int64_t>(c.x), cy = static_cast<std::int64_t>(c.y), dx = static_cast<std::int64_t>(d.x), dy = static_cast<std::int64_t>(d.y);
    vx_check(l.is_north_of(c, d) == (line_y & (cy == dy + 1)), "is_north_of");
    vx_check(l.is_south_of(c, d) == (line_y & (cy + 1 == dy)), "is_south_of");
    vx_check(l.is_east_of(c, d) == (line_x & (cx + 1 == dx)), "is_east_of");
    vx_check(l.is_west_of(c, d) == (line_x & (cx == dx + 1)), "is_west_of");
    vx_check(l.is_northwards_of(c, d) == (line_y & (cy > dy)), "is_northwards_of");
    vx_check(l.is_southwards_of(c, d) == (line_y & (cy < dy)), "is_southwards_of");
    vx_check(l.is_eastwards_of(c, d) == (line_x & (cx < dx)), "is_eastwards_of");
    vx_check(l.is_westwards_of(c, d) == (line_x & (cx > dx)), "is_westwards_of");
    const bool same_xy = (c.x == d.x) & (c.y == d.y);
    vx_check(l.is_above(c, d) == (same_xy & (c.z + 1 == d.z)), "is_above");
    vx_check(l.is_below(c, d) == (same_xy & (c.z == d.z + 1)), "is_below");
    const bool n = c.y == 0, s = c.y == ar.y, w = c.x == 0, e = c.x == ar.x;
    vx_check(l.is_at_northern_border(c) == n && l.is_at_southern_border(c) == s && l.is_at_western_border(c) == w && l.is_at_eastern_border(c) == e &&
                 l.is_at_any_border(c) == (n | s | w | e),
             "border predicates");
    using C = typename L::coordinate;
    vx_check((l.northern_border_of(c) == C{c.x, 0, c.z}) && (l.southern_border_of(c) == C{c.x, ar.y, c.z}) && (l.western_border_of(c) == C{0, c.y, c.z}) && (l.eastern_border_of(c) == C{ar.x, c.y, c.z}),
             "border positions");
    vx_check(l.is_ground_layer(c) == (c.z == 0) && l.is_crossing_layer(c) == (c.z != 0), "layer predicates");
    vx_check(l.is_adjacent_of(c, d) == l.is_adjacent_of(d, c), "adjacency is symmetric");
    vx_check(!l.is_adjacent_of(c, c), "nothing is adjacent to itself");
    C up = raised(ar, c, 1), down = raised(ar, c, -1);
    vx_check(l.is_adjacent_elevation_of(c, d) == (l.is_adjacent_of(c, d) | l.is_adjacent_of(up, d) | l.is_adjacent_of(down, d)), "adjacency across layers");
    vx_check(listed(l.adjacent_coordinates(c), d) == l.is_adjacent_of(c, d), "the list of neighbours and the predicate agree");
}
template <typename L>
void bounds_common()
{
    using C = typename L::coordinate;
    const C ar = dim<C>();
    L       l{ar};
    const auto x = vx_range("x", 0, 2 * big()), y = vx_range("y", 0, 2 * big()), z = vx_range("z", 0, 1);
    const C    c{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(z)};
    vx_check(l.is_within_bounds(c) == ((c.x <= ar.x) & (c.y <= ar.y) & (c.z <= ar.z)), "within bounds means inside the aspect ratio");
    if (c.x > ar.x)
        vx_check(l.east(c).is_dead(), "there is nothing east of a position outside");
    if (c.y > ar.y)
        vx_check(l.south(c).is_dead(), "there is nothing south of a position outside");
    vx_check(l.area() == (static_cast<std::uint64_t>(ar.x) + 1) * (static_cast<std::uint64_t>(ar.y) + 1), "the area counts the positions of a layer");
    const C big{ar.x + 1, ar.y + 1, 0};
    L       copy = l.clone();
    l.resize(big);
    vx_check((l.x() == big.x) & (l.y() == big.y) & (l.z() == 0), "resize sets the aspect ratio");
    vx_check((copy.x() == ar.x) & (copy.y() == ar.y) & (copy.z() == ar.z), "a clone keeps its own aspect ratio");
    copy.resize(C{0, 0, 0});
    vx_check(l.x() == big.x && l.y() == big.y, "resizing a clone leaves the original alone");
}
template <typename C>
void cartesian()
{
    const C             ar = dim<C>();
    cartesian_layout<C> l{ar};
    const C             c = pos(ar);
    cardinal_common(l, ar, c);
    vx_check(l.north_east(c) == moved(ar, c, 1, -1), "north_east");
    vx_check(l.south_east(c) == moved(ar, c, 1, 1), "south_east");
    vx_check(l.south_west(c) == moved(ar, c, -1, 1), "south_west");
    vx_check(l.north_west(c) == moved(ar, c, -1, -1), "north_west");
    const auto adj = l.adjacent_coordinates(c);
    const auto want = static_cast<std::size_t>((c.y != 0) + (c.y != ar.y) + (c.x != 0) + (c.x != ar.x));
    vx_check(adj.size() == want, "every side inside the layout has one neighbour");
    for (const auto& a : adj)
    {
        const auto dx = static_cast<std::int64_t>(a.x) - static_cast<std::int64_t>(c.x), dy = static_cast<std::int64_t>(a.y) - static_cast<std::int64_t>(c.y);
        vx_check(dx * dx + dy * dy == 1 && a.z == c.z && l.is_within_bounds(a), "neighbours share a side and lie in the layout");
    }
    const auto opp = l.adjacent_opposite_coordinates(c);
    const bool ns = (c.y != 0) & (c.y != ar.y), ew = (c.x != 0) & (c.x != ar.x);
    vx_check(opp.size() == static_cast<std::size_t>(ns + ew), "opposite neighbours come in pairs");
    for (const auto& [a, b] : opp)
        vx_check(a.x + b.x == c.x + c.x && a.y + b.y == c.y + c.y && (a.z == c.z) & (b.z == c.z) && !(a == b) && listed(adj, a), "opposite neighbours face each other across the position");
    vx_observe(adj.size());
}
// visits, in order, each position of the layers from start to stop
template <typename L>
void iteration()
{
    using C     = typename L::coordinate;
    const auto w = static_cast<int>(vx_concretize(vx_range("w", 0, VX_B(2, 3))));
    const auto h = static_cast<int>(vx_concretize(vx_range("h", 0, VX_B(2, 3))));
    const auto d = static_cast<int>(vx_concretize(vx_range("d", 0, 1)));
    const C    ar{w, h, d};
    L          l{ar};
    std::vector<C> all, ground;
    for (int z = 0; z <= d; ++z)
        for (int y = 0; y <= h; ++y)
            for (int x = 0; x <= w; ++x)
            {
                all.push_back(C{x, y, z});
                if (z == 0)
                    ground.push_back(C{x, y, 0});
            }
    std::vector<C> got, gotg;
    l.foreach_coordinate([&](const auto& c) { got.push_back(c); });
    l.foreach_ground_coordinate([&](const auto& c) { gotg.push_back(c); });
    vx_check(got == all, "foreach_coordinate visits every position once, layer by layer");
    vx_check(gotg == ground, "foreach_ground_coordinate visits the ground layer");
    got.clear();
    gotg.clear();
    for (const auto& c : l.coordinates())
        got.push_back(c);
    for (const auto& c : l.ground_coordinates())
        gotg.push_back(c);
    vx_check(got == all && gotg == ground, "the ranges contain the same positions");
    // a part of the range
    const auto i = vx_concretize(vx_range("start", 0, all.size() - 1));
    const auto j = vx_concretize(vx_range("stop", i, all.size() - 1));
    got.clear();
    l.foreach_coordinate([&](const auto& c) { got.push_back(c); }, all[i], all[j]);
    vx_check(got == std::vector<C>(all.begin() + static_cast<std::ptrdiff_t>(i), all.begin() + static_cast<std::ptrdiff_t>(j)), "a start and a stop position limit the range");
    const auto k = vx_concretize(vx_range("until", 0, all.size()));
    std::size_t seen = 0;
    l.foreach_coordinate([&](const auto&) { return ++seen < k; });
    vx_check(seen == (k == 0 ? 1 : k < all.size() ? k : all.size()), "a visitor that returns false ends the iteration");
}
template <typename L>
void hexagonal(bool pointy)
{
    using C     = typename L::coordinate;
    const C ar  = dim<C>();
    L       l{ar};
    const C c = pos(ar);
    const auto q = l.to_cube_coordinate(c);
    vx_check(q.x + q.y + q.z == 0, "cube coordinates sum up to zero");
    const C back = l.to_offset_coordinate(q);
    vx_check(back.x == c.x && back.y == c.y, "cube coordinates convert back");
    const auto d = pos(ar, "e.x", "e.y", "e.z");
    const auto r = l.to_cube_coordinate(d);
    const auto ax = q.x > r.x ? q.x - r.x : r.x - q.x, ay = q.y > r.y ? q.y - r.y : r.y - q.y, az = q.z > r.z ? q.z - r.z : r.z - q.z;
    vx_check(((q.x == r.x) & (q.y == r.y) & (q.z == r.z)) == ((c.x == d.x) & (c.y == d.y)), "different positions have different cube coordinates");
    const auto m = ax > ay ? (ax > az ? ax : az) : (ay > az ? ay : az);
    vx_check(l.is_adjacent_of(c, d) == ((m == 1) & (c.z == d.z)), "adjacent means hexagonal distance one in the same layer");
    // the six sides
    const C s[6] = {pointy ? l.east(c) : l.north(c), pointy ? l.west(c) : l.south(c), l.north_east(c), l.south_west(c), l.north_west(c), l.south_east(c)};
    std::size_t inside = 0;
    for (int i = 0; i < 6; ++i)
    {
        const bool in = !(s[i] == c);
        inside += in;
        if (in)
        {
            vx_check(l.is_adjacent_of(c, s[i]) && s[i].z == c.z && l.is_within_bounds(s[i]), "each side leads to an adjacent position");
            for (int j = 0; j < i; ++j)
                vx_check(!(s[i] == s[j]), "different sides lead to different positions");
        }
    }
    const auto adj = l.adjacent_coordinates(c);
    vx_check(adj.size() == inside, "the sides reach all neighbours");
    const C ne = s[2], nw = s[4], se = s[5], sw = s[3];
    if (!(ne == c))
        vx_check(l.south_west(ne) == c && (pointy ? ne.y + 1 == c.y : ne.x == c.x + 1), "south_west undoes north_east");
    if (!(nw == c))
        vx_check(l.south_east(nw) == c && (pointy ? nw.y + 1 == c.y : nw.x + 1 == c.x), "south_east undoes north_west");
    if (!(se == c))
        vx_check(l.north_west(se) == c && (pointy ? se.y == c.y + 1 : se.x == c.x + 1), "north_west undoes south_east");
    if (!(sw == c))
        vx_check(l.north_east(sw) == c && (pointy ? sw.y == c.y + 1 : sw.x + 1 == c.x), "north_east undoes south_west");
    const auto opp = l.adjacent_opposite_coordinates(c);
    vx_check(opp.size() == static_cast<std::size_t>((!(s[0] == c) & !(s[1] == c)) + (!(ne == c) & !(sw == c)) + (!(nw == c) & !(se == c))), "opposite neighbours come in pairs");
    for (const auto& [a, b] : opp)
    {
        const auto qa = l.to_cube_coordinate(a), qb = l.to_cube_coordinate(b);
        vx_check(qa.x + qb.x == 2 * q.x && qa.y + qb.y == 2 * q.y && (a.z == c.z) & (b.z == c.z), "opposite neighbours face each other across the position");
    }
    vx_check(l.is_in_odd_row(c) == (c.y & 1) && l.is_in_even_row(c) == !(c.y & 1) && l.is_in_odd_column(c) == (c.x & 1) && l.is_in_even_column(c) == !(c.x & 1), "parity of rows and columns");
    vx_observe(inside);
}
template <typename L>
void hex_shape(bool pointy, bool odd)
{
    // which rows (columns) are shifted: the south-east neighbour of (0, 0)-like positions tells
    using C = typename L::coordinate;
    const C ar = dim<C>();
    L       l{ar};
    const C c = pos(ar);
    vx_assume(c.x > 0 && c.y > 0 && c.x < ar.x && c.y < ar.y);
    const bool shifted = pointy ? ((c.y & 1) == odd) : ((c.x & 1) == odd);
    if (pointy)
        vx_check((l.south_east(c) == C{c.x + shifted, c.y + 1, c.z}) && (l.south_west(c) == C{c.x + shifted - 1, c.y + 1, c.z}) && (l.north_east(c) == C{c.x + shifted, c.y - 1, c.z}) &&
                     (l.north_west(c) == C{c.x + shifted - 1, c.y - 1, c.z}),
                 "the shifted rows are the ones the arrangement names");
    else
        vx_check((l.south_east(c) == C{c.x + 1, c.y + shifted, c.z}) && (l.south_west(c) == C{c.x - 1, c.y + shifted, c.z}) && (l.north_east(c) == C{c.x + 1, c.y + shifted - 1, c.z}) &&
                     (l.north_west(c) == C{c.x - 1, c.y + shifted - 1, c.z}),
                 "the shifted columns are the ones the arrangement names");
}
template <typename L>
void hex_cardinal()
{
    using C    = typename L::coordinate;
    const C ar = dim<C>();
    L       l{ar};
    cardinal_common(l, ar, pos(ar));
}
using OR = hexagonal_layout<offset::ucoord_t, odd_row_hex>;
using ER = hexagonal_layout<offset::ucoord_t, even_row_hex>;
using OC = hexagonal_layout<offset::ucoord_t, odd_column_hex>;
using EC = hexagonal_layout<offset::ucoord_t, even_column_hex>;
}  // namespace
VX_ENTRY(cart_offset) { cartesian<offset::ucoord_t>(); }
VX_ENTRY(cart_cube) { cartesian<cube::coord_t>(); }
VX_ENTRY(cart_bounds) { bounds_common<cartesian_layout<offset::ucoord_t>>(); }
VX_ENTRY(cart_iterate) { iteration<cartesian_layout<offset::ucoord_t>>(); }
VX_ENTRY(cart_iterate_cube) { iteration<cartesian_layout<cube::coord_t>>(); }
VX_ENTRY(hex_or) { hexagonal<OR>(true); }
VX_ENTRY(hex_er) { hexagonal<ER>(true); }
VX_ENTRY(hex_oc) { hexagonal<OC>(false); }
VX_ENTRY(hex_ec) { hexagonal<EC>(false); }
VX_ENTRY(hex_shapes)
{
    switch (vx_concretize(vx_range("kind", 0, 3)))
    {
        case 0: return hex_shape<OR>(true, true);
        case 1: return hex_shape<ER>(true, false);
        case 2: return hex_shape<OC>(false, true);
        default: return hex_shape<EC>(false, false);
    }
}
VX_ENTRY(hex_cardinal_row) { hex_cardinal<ER>(); }
VX_ENTRY(hex_bounds) { bounds_common<ER>(); }
VX_ENTRY(hex_iterate) { iteration<OC>(); }
VX_ENTRY(shifted)
{
    // shifted Cartesian layouts have the adjacency of the hexagonal layout of the same name
    const auto ar = dim<offset::ucoord_t>();
    const auto c = pos(ar), d = pos(ar, "d.x", "d.y", "d.z");
    switch (vx_concretize(vx_range("kind", 0, 3)))
    {
        case 0: vx_check(shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>{ar}.is_adjacent_of(c, d) == OR{ar}.is_adjacent_of(c, d), "odd row shift"); break;
        case 1: vx_check(shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>{ar}.is_adjacent_of(c, d) == ER{ar}.is_adjacent_of(c, d), "even row shift"); break;
        case 2: vx_check(shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>{ar}.is_adjacent_of(c, d) == OC{ar}.is_adjacent_of(c, d), "odd column shift"); break;
        default: vx_check(shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>{ar}.is_adjacent_of(c, d) == EC{ar}.is_adjacent_of(c, d), "even column shift"); break;
    }
}
VX_ENTRY(tiles)
{
    // a tile is a coordinate: the tile interface and the coordinate interface agree
    const offset::ucoord_t ar{2, 1, 1};
    using T = tile_based_layout<cartesian_layout<offset::ucoord_t>>;
    T          l{ar};
    const auto c = pos(ar);
    vx_check(l.adjacent_tiles(c) == l.adjacent_coordinates(c) && l.adjacent_opposite_tiles(c) == l.adjacent_opposite_coordinates(c), "adjacent tiles are the adjacent positions");
    std::vector<offset::ucoord_t> a, b, g, h;
    l.foreach_tile([&](const auto& t) { a.push_back(t); });
    l.foreach_coordinate([&](const auto& t) { b.push_back(t); });
    l.foreach_ground_tile([&](const auto& t) { g.push_back(t); });
    for (const auto& t : l.ground_tiles())
        h.push_back(t);
    vx_check(a == b && a.size() == 12 && g == h && g.size() == 6, "tiles are visited like positions");
    T copy = l.clone();
    copy.resize({0, 0, 0});
    vx_check(l.x() == 2, "a clone is independent");
}
