// Coordinates: identity, order, hashing, arithmetic, conversions, enumeration, area.
#include "vx.h"

#include <fiction/layouts/coordinates.hpp>

#include <functional>
#include <string>

using namespace fiction;

namespace
{
offset::ucoord_t in_offset(const char* x, const char* y, const char* z, const char* d)
{
    const auto       xv = vx_range(x, 0, 0x7fffffff);
    const auto       yv = vx_range(y, 0, 0x7fffffff);
    const auto       zv = vx_range(z, 0, 1);
    const bool       dv = vx_bool(d);
    offset::ucoord_t c{xv, yv, zv};
    return dv ? c.get_dead() : c;
}
template <typename C>
C in_signed(const char* x, const char* y, const char* z, const char* d)
{
    const auto xv = vx_i32(x);
    const auto yv = vx_i32(y);
    if constexpr (std::is_same_v<C, siqad::coord_t>)
    {
        const auto zv = vx_range(z, 0, 1);
        const bool dv = vx_bool(d);
        C          c{xv, yv, static_cast<int32_t>(zv)};
        return dv ? c.get_dead() : c;
    }
    else
    {
        const auto zv = vx_i32(z);
        const bool dv = vx_bool(d);
        C          c{xv, yv, zv};
        return dv ? c.get_dead() : c;
    }
}
template <typename C>
C in(const char* x, const char* y, const char* z, const char* d)
{
    if constexpr (std::is_same_v<C, offset::ucoord_t>)
        return in_offset(x, y, z, d);
    else
        return in_signed<C>(x, y, z, d);
}
// independent linear order: offset/cube by z, then y, then x; siqad by dot row 2y+z, then x
template <typename C>
bool before(const C& a, const C& b)
{
    const auto ax = static_cast<int64_t>(a.x);
    const auto ay = static_cast<int64_t>(a.y);
    const auto az = static_cast<int64_t>(a.z);
    const auto bx = static_cast<int64_t>(b.x);
    const auto by = static_cast<int64_t>(b.y);
    const auto bz = static_cast<int64_t>(b.z);
    if constexpr (std::is_same_v<C, siqad::coord_t>)
    {
        const auto ra = 2 * ay + az;
        const auto rb = 2 * by + bz;
        return ra < rb || (ra == rb && ax < bx);
    }
    else
    {
        return az < bz || (az == bz && (ay < by || (ay == by && ax < bx)));
    }
}
template <typename C>
void order()
{
    const C    a    = in<C>("ax", "ay", "az", "ad");
    const C    b    = in<C>("bx", "by", "bz", "bd");
    const bool same = a.x == b.x && a.y == b.y && a.z == b.z && a.is_dead() == b.is_dead();
    vx_check((a == b) == same, "equal exactly when position and dead flag agree");
    vx_check((a != b) == !same, "!= negates ==");
    vx_check((a < b) == before(a, b), "< is the documented lexicographic order");
    vx_check((a > b) == before(b, a), "> mirrors <");
    vx_check((a <= b) == !before(b, a), "<= is not >");
    vx_check((a >= b) == !before(a, b), ">= is not <");
    vx_check(!same || std::hash<C>{}(a) == std::hash<C>{}(b), "equal coordinates hash equally");
    const C g = a.get_dead();
    vx_check(g.is_dead() && g.x == a.x && g.y == a.y && g.z == a.z, "get_dead keeps the position and sets the flag");
    vx_check(C{}.is_dead(), "default coordinate is dead");
    vx_check(C{}.x == 0 && C{}.y == 0 && C{}.z == 0, "default coordinate lies at the origin");
    vx_check(!C(a.x, a.y, a.z).is_dead() && !C(a.x, a.y).is_dead(), "constructed coordinate is alive");
    vx_check(C(a.x, a.y).x == a.x && C(a.x, a.y).y == a.y && C(a.x, a.y).z == 0, "two-argument constructor sets z to 0");
    vx_observe(std::hash<C>{}(a));
    vx_observe(a < b);
}
}  // namespace

VX_ENTRY(order_offset) { order<offset::ucoord_t>(); }
VX_ENTRY(order_cube) { order<cube::coord_t>(); }
VX_ENTRY(order_siqad) { order<siqad::coord_t>(); }

VX_ENTRY(pack)
{
    const uint64_t         w = vx_u64("word");
    const offset::ucoord_t c{w};
    vx_check(static_cast<uint64_t>(c) == w, "unpack then pack is the identity on 64-bit words");
    vx_check(c.is_dead() == static_cast<bool>(w >> 63), "most significant bit is the dead flag");
    const auto             a = in_offset("x", "y", "z", "d");
    const offset::ucoord_t r{static_cast<uint64_t>(a)};
    vx_check(r == a, "pack then unpack is the identity on coordinates");
    vx_check(r.x == a.x && r.y == a.y && r.z == a.z && r.d == a.d, "pack then unpack keeps every field");
    vx_check(a == static_cast<uint64_t>(a), "comparison with the packed word");
    vx_check((a == w) == (static_cast<uint64_t>(a) == w), "comparison with any word");
    vx_observe(static_cast<uint64_t>(a));
}

VX_ENTRY(text)
{
    // the textual form names all three components and nothing else
    const auto x = static_cast<int32_t>(vx_irange("x", -30, 120));
    const auto y = static_cast<int32_t>(vx_irange("y", 0, 12));
    const auto z = static_cast<int32_t>(vx_irange("z", 0, 1));
    auto       p = [](int32_t v)
    {
        std::string s;
        bool        neg = v < 0;
        uint32_t    u   = neg ? static_cast<uint32_t>(-v) : static_cast<uint32_t>(v);
        if (u >= 100)
        {
            s += static_cast<char>('0' + u / 100);
        }
        if (u >= 10)
        {
            s += static_cast<char>('0' + u / 10 % 10);
        }
        s += static_cast<char>('0' + u % 10);
        return neg ? "-" + s : s;
    };
    const std::string want = "(" + p(x) + "," + p(y) + "," + p(z) + ")";
    vx_check(cube::coord_t(x, y, z).str() == want, "cube text");
    vx_check(siqad::coord_t(x, y, z).str() == want, "siqad text");
    if (x >= 0)
        vx_check(offset::ucoord_t(x, y, z).str() == want, "offset text");
}

// ---------------------------------------------------------------- arithmetic and conversions
VX_ENTRY(cube_arith)
{
    const auto a = in_signed<cube::coord_t>("ax", "ay", "az", "ad");
    const auto b = in_signed<cube::coord_t>("bx", "by", "bz", "bd");
    const auto s = a + b;
    const auto d = a - b;
    vx_check(!s.is_dead() && !d.is_dead(), "results are alive");
    vx_check(static_cast<uint32_t>(s.x) == static_cast<uint32_t>(a.x) + static_cast<uint32_t>(b.x) &&
                 static_cast<uint32_t>(s.y) == static_cast<uint32_t>(a.y) + static_cast<uint32_t>(b.y) &&
                 static_cast<uint32_t>(s.z) == static_cast<uint32_t>(a.z) + static_cast<uint32_t>(b.z),
             "addition is component-wise");
    vx_check(d.x == static_cast<int32_t>(static_cast<uint32_t>(a.x) - static_cast<uint32_t>(b.x)) &&
                 d.y == static_cast<int32_t>(static_cast<uint32_t>(a.y) - static_cast<uint32_t>(b.y)) &&
                 d.z == static_cast<int32_t>(static_cast<uint32_t>(a.z) - static_cast<uint32_t>(b.z)),
             "subtraction is component-wise");
}
VX_ENTRY(siqad_arith)
{
    const auto lim = int64_t{1} << 29;
    const auto ax  = vx_irange("ax", -lim, lim);
    const auto ay  = vx_irange("ay", -lim, lim);
    const auto az  = vx_irange("az", 0, 1);
    const auto bx  = vx_irange("bx", -lim, lim);
    const auto by  = vx_irange("by", -lim, lim);
    const auto bz  = vx_irange("bz", 0, 1);
    const siqad::coord_t a{static_cast<int32_t>(ax), static_cast<int32_t>(ay), static_cast<int32_t>(az)};
    const siqad::coord_t b{static_cast<int32_t>(bx), static_cast<int32_t>(by), static_cast<int32_t>(bz)};
    auto row = [](const siqad::coord_t& c) { return 2 * static_cast<int64_t>(c.y) + c.z; };
    const auto s = a + b;
    const auto d = a - b;
    vx_check(s.x == ax + bx && row(s) == 2 * ay + az + 2 * by + bz, "addition adds columns and dot rows");
    vx_check(d.x == ax - bx && row(d) == 2 * ay + az - 2 * by - bz, "subtraction subtracts columns and dot rows");
    vx_check(!s.is_dead() && !d.is_dead(), "results are alive");
    vx_check(d + b == a && s - b == a, "addition and subtraction are inverse");
    vx_check(a + b == b + a, "addition commutes");
}
VX_ENTRY(siqad_convert)
{
    const auto a = in_signed<siqad::coord_t>("ax", "ay", "az", "ad");
    const auto c = siqad::to_fiction_coord<cube::coord_t>(a);
    const auto row = 2 * static_cast<int64_t>(a.y) + a.z;
    if (a.is_dead())
    {
        vx_check(c.is_dead(), "dead converts to dead");
    }
    else
    {
        vx_reach("alive");
        vx_check(!c.is_dead() && c.x == a.x && c.z == 0, "column and layer survive");
        const int64_t sat = row > INT32_MAX ? INT32_MAX : row < INT32_MIN ? INT32_MIN : row;
        vx_check(c.y == sat, "row is 2y+z, saturating at the int32 limits");
        if (sat == row)
        {
            vx_check(siqad::to_siqad_coord(c) == a, "siqad -> cube -> siqad is the identity");
        }
    }
    const auto x = vx_i32("fx");
    const auto y = vx_i32("fy");
    const cube::coord_t f{x, y};
    const auto          s = siqad::to_siqad_coord(f);
    vx_check(!s.is_dead() && s.x == x && 2 * static_cast<int64_t>(s.y) + s.z == y, "cube -> siqad keeps column and row");
    vx_check(siqad::to_fiction_coord<cube::coord_t>(s) == f, "cube -> siqad -> cube is the identity");
    if (x >= 0 && y >= 0)
    {
        const offset::ucoord_t o{x, y};
        const auto             os = siqad::to_siqad_coord(o);
        vx_check(os == s, "offset and cube convert alike");
        vx_check(siqad::to_fiction_coord<offset::ucoord_t>(os) == o, "offset -> siqad -> offset is the identity");
    }
}
VX_ENTRY(offset_to_cube)
{
    const auto a = in_offset("x", "y", "z", "d");
    const auto c = offset_to_cube_coord(a);
    if (a.is_dead())
    {
        vx_check(c.is_dead(), "dead converts to dead");
    }
    else
    {
        vx_reach("alive");
        vx_check(!c.is_dead() && c.x == static_cast<int64_t>(a.x) && c.y == static_cast<int64_t>(a.y) && c.z == static_cast<int64_t>(a.z),
                 "components survive");
    }
}
namespace
{
uint64_t mag(int64_t v) { return static_cast<uint64_t>(v < 0 ? -v : v); }
}
VX_ENTRY(area_offset)
{
    // one dimension over its full range, the other one small, both ways round
    const bool     swap = vx_concretize(vx_bool("swap"));
    const auto     big  = vx_range("big", 0, 0x7fffffff);
    const auto     sml  = vx_concretize(vx_range("small", 0, 5));
    const auto     z    = vx_concretize(vx_range("z", 0, 1));
    const auto     n    = (big + 1) * (sml + 1);
    const auto     x    = swap ? big : sml;
    const auto     y    = swap ? sml : big;
    const offset::ucoord_t a{x, y, z};
    vx_check(area(a) == n, "offset area is the number of positions per layer");
    vx_check(volume(a) == n * (z + 1), "offset volume is the number of positions");
}
VX_ENTRY(area_signed)
{
    const bool    swap = vx_concretize(vx_bool("swap"));
    const int64_t big  = vx_irange("big", -0x7fffffffll, 0x7fffffff);
    const auto    sml  = static_cast<int64_t>(vx_concretize(static_cast<uint64_t>(vx_irange("small", -3, 3))));
    const auto    z    = static_cast<int64_t>(vx_concretize(static_cast<uint64_t>(vx_irange("z", -2, 2))));
    const auto    x    = swap ? big : sml;
    const auto    y    = swap ? sml : big;
    const auto    n    = (mag(big) + 1) * (mag(sml) + 1);
    const cube::coord_t c{x, y, z};
    vx_check(area(c) == n, "cube area");
    vx_check(volume(c) == n * (mag(z) + 1), "cube volume");
    const siqad::coord_t s{x, y, z & 1};
    const auto           m = (mag(x) + 1) * (2 * mag(y) + static_cast<uint64_t>(z & 1) + 1);
    vx_check(area(s) == m && volume(s) == m, "siqad area counts dots");
}

// ---------------------------------------------------------------- enumeration
namespace
{
template <typename C>
bool inside(const C& c, const C& ar)
{
    return c.x >= 0 && c.y >= 0 && c.z >= 0 && c.x <= ar.x && c.y <= ar.y && c.z <= ar.z;
}
template <typename C>
void step(uint64_t maxz)
{
    // one step from any position of any bounded box, all dimensions symbolic: the successor in enumeration order
    const uint64_t lim = 0x3fffffff;
    const auto     ax  = vx_range("ar.x", 0, lim);
    const auto     ay  = vx_range("ar.y", 0, lim);
    const auto     az  = vx_range("ar.z", 0, maxz);
    const auto     x   = vx_range("x", 0, lim);
    const auto     y   = vx_range("y", 0, lim);
    const auto     z   = vx_range("z", 0, maxz);
    const C        ar{static_cast<int32_t>(ax), static_cast<int32_t>(ay), static_cast<int32_t>(az)};
    const C        c{static_cast<int32_t>(x), static_cast<int32_t>(y), static_cast<int32_t>(z)};
    vx_assume(x <= ax && y <= ay && z <= az);
    coord_iterator<C> it{ar, c};
    vx_check(*it == c, "an iterator started inside the box stands on its start");
    auto old = it++;
    vx_check(*old == c, "post-increment returns the old position");
    const C n = *it;
    if (x == ax && y == ay && z == az)
    {
        vx_reach("last position");
        vx_check(n.is_dead(), "the position after the last is dead");
    }
    else
    {
        vx_check(!n.is_dead() && inside(n, ar), "the successor lies in the box");
        // strictly later, and nothing in between: next in the documented order
        bool ok;
        if constexpr (std::is_same_v<C, siqad::coord_t>)
        {
            const bool wrapx = x == ax;
            const bool wrapz = wrapx && z == az;
            ok = static_cast<uint64_t>(n.x) == (wrapx ? 0 : x + 1) && n.z == (wrapz ? 0 : wrapx ? z + 1 : z) &&
                 static_cast<uint64_t>(n.y) == (wrapz ? y + 1 : y);
        }
        else
        {
            const bool wrapx = x == ax;
            const bool wrapy = wrapx && y == ay;
            ok = static_cast<uint64_t>(n.x) == (wrapx ? 0 : x + 1) && static_cast<uint64_t>(n.y) == (wrapy ? 0 : wrapx ? y + 1 : y) &&
                 static_cast<uint64_t>(n.z) == (wrapy ? z + 1 : z);
        }
        vx_check(ok, "the successor is the next position in enumeration order");
        vx_check(c < n && old < it && old <= it && old != it, "the successor is greater");
    }
}
template <typename C>
void walk(uint64_t mx, uint64_t my, uint64_t mz)
{
    // whole enumerations of every small box from every start (also starts beyond the box): each position once, then dead
    const auto ax = vx_concretize(vx_range("ar.x", 0, mx));
    const auto ay = vx_concretize(vx_range("ar.y", 0, my));
    const auto az = vx_concretize(vx_range("ar.z", 0, mz));
    const auto x  = vx_range("x", 0, mx);
    const auto y  = vx_range("y", 0, my);
    const auto z  = vx_range("z", 0, mz);
    const C    ar{static_cast<int32_t>(ax), static_cast<int32_t>(ay), static_cast<int32_t>(az)};
    const C    s{static_cast<int32_t>(x), static_cast<int32_t>(y), static_cast<int32_t>(z)};
    vx_assume(x <= ax && y <= ay && z <= az);
    // reference odometer
    uint64_t          rx = x, ry = y, rz = z;
    bool              done = false;
    coord_iterator<C> it{ar, s};
    while (!(*it).is_dead())
    {
        vx_check(!done, "enumeration ends after the last position");
        const C c = *it;
        vx_check(c.x == static_cast<int64_t>(rx) && c.y == static_cast<int64_t>(ry) && c.z == static_cast<int64_t>(rz), "positions appear in order, each once");
        uint64_t& mid  = std::is_same_v<C, siqad::coord_t> ? rz : ry;
        uint64_t& last = std::is_same_v<C, siqad::coord_t> ? ry : rz;
        const auto mm  = std::is_same_v<C, siqad::coord_t> ? az : ay;
        const auto ml  = std::is_same_v<C, siqad::coord_t> ? ay : az;
        if (rx < ax)
            ++rx;
        else if (mid < mm)
        {
            rx = 0;
            ++mid;
        }
        else if (last < ml)
        {
            rx  = 0;
            mid = 0;
            ++last;
        }
        else
            done = true;
        ++it;
    }
    vx_check(done, "every position is visited");
    vx_check((*it).x == ar.x && (*it).y == ar.y && (*it).z == ar.z, "the end is a dead copy of the bound");
}
template <typename C>
void wrapping(uint64_t maxz)
{
    // wrap() on any coordinate: identity inside the box, one carry per exceeded dimension, dead copy of the bound otherwise
    const uint64_t lim = 0x3fffffff;
    const auto     ax  = vx_range("ar.x", 0, lim);
    const auto     ay  = vx_range("ar.y", 0, lim);
    const auto     az  = vx_range("ar.z", 0, maxz);
    const auto     x   = vx_range("x", 0, lim);
    const auto     y   = vx_range("y", 0, lim);
    const auto     z   = vx_range("z", 0, maxz);
    const C        ar{static_cast<int32_t>(ax), static_cast<int32_t>(ay), static_cast<int32_t>(az)};
    C              c{static_cast<int32_t>(x), static_cast<int32_t>(y), static_cast<int32_t>(z)};
    const C        was = c;
    c.wrap(ar);
    if (x <= ax && y <= ay && z <= az)
    {
        vx_check(c == was, "a contained coordinate is unchanged");
    }
    else
    {
        vx_check(c.is_dead() ? c == ar.get_dead() : inside(c, ar), "the result is contained or a dead copy of the bound");
        if (z <= az && x > ax && y < ay)
        {
            vx_check(!c.is_dead() && c.x == 0, "overflow in the first dimension carries");
        }
    }
}
}  // namespace
VX_ENTRY(step_offset) { step<offset::ucoord_t>(1); }
VX_ENTRY(step_cube) { step<cube::coord_t>(0x3fffffff); }
VX_ENTRY(step_siqad) { step<siqad::coord_t>(1); }
VX_ENTRY(wrap_offset) { wrapping<offset::ucoord_t>(1); }
VX_ENTRY(wrap_cube) { wrapping<cube::coord_t>(0x3fffffff); }
VX_ENTRY(wrap_siqad) { wrapping<siqad::coord_t>(1); }
VX_ENTRY(walk_offset) { walk<offset::ucoord_t>(VX_B(2, 4), VX_B(2, 4), 1); }
VX_ENTRY(walk_cube) { walk<cube::coord_t>(2, VX_B(2, 3), VX_B(1, 3)); }
VX_ENTRY(walk_siqad) { walk<siqad::coord_t>(VX_B(2, 4), VX_B(2, 4), 1); }
