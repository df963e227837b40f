// Clocking schemes, clocked layouts, synchronization elements.
#include "vx.h"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>
#include <cctype>
#include <string>
#include <vector>
using namespace fiction;
namespace
{
using UC   = offset::ucoord_t;
using CART = clocked_layout<cartesian_layout<UC>>;
using OR   = clocked_layout<hexagonal_layout<UC, odd_row_hex>>;
using ER   = clocked_layout<hexagonal_layout<UC, even_row_hex>>;
using OC   = clocked_layout<hexagonal_layout<UC, odd_column_hex>>;
using EC   = clocked_layout<hexagonal_layout<UC, even_column_hex>>;
using SE   = synchronization_element_layout<CART>;
std::uint64_t big()
{
    return VX_B(1u << 16, 1u << 30);
}
struct known
{
    const char* key;     // name to look up
    const char* name;    // name of the scheme
    unsigned    clocks;  // number of phases
    unsigned    in, out; // least bounds on the degrees that any interior zone attains
    const char* rows;    // the published cutout
};
// the regular schemes on Cartesian layouts as published
const known schemes[] = {
    {"COLUMNAR", "COLUMNAR", 4, 1, 1, "0123"},
    {"COLUMNAR3", "COLUMNAR", 3, 1, 1, "012"},
    {"COLUMNAR4", "COLUMNAR", 4, 1, 1, "0123"},
    {"ROW", "ROW", 4, 1, 1, "0 1 2 3"},
    {"ROW3", "ROW", 3, 1, 1, "0 1 2"},
    {"ROW4", "ROW", 4, 1, 1, "0 1 2 3"},
    {"2DDWAVE", "2DDWAVE", 4, 2, 2, "0123 1230 2301 3012"},
    {"2DDWAVE3", "2DDWAVE", 3, 2, 2, "012 120 201"},
    {"2DDWAVE4", "2DDWAVE", 4, 2, 2, "0123 1230 2301 3012"},
    {"USE", "USE", 4, 2, 2, "0123 3210 2301 1032"},
    {"RES", "RES", 4, 3, 3, "3012 0103 1230 0321"},
    {"ESR", "ESR", 4, 3, 3, "3012 0123 1230 0321"},
    {"CFE", "CFE", 4, 2, 2, "0101 3232 0101 3232"},
    {"RIPPLE", "RIPPLE", 4, 3, 3, "0123 3210 0123 3210"},
    {"SRS", "SRS", 4, 3, 3, "1032 2301 3230 0121"},
    {"BANCS", "BANCS", 3, 2, 2, "012 210 201 102 120 021"},
};
constexpr std::size_t NS = sizeof(schemes) / sizeof(schemes[0]);
struct table
{
    std::vector<std::vector<unsigned>> t;
    explicit table(const char* s)
    {
        t.emplace_back();
        for (; *s; ++s)
            if (*s == ' ')
                t.emplace_back();
            else
                t.back().push_back(static_cast<unsigned>(*s - '0'));
    }
    // the entry for (x, y), without a symbolic subscript
    unsigned at(std::uint64_t x, std::uint64_t y) const
    {
        const std::uint64_t ry = y % t.size(), rx = x % t[0].size();
        unsigned            r  = 0;
        for (std::size_t j = 0; j < t.size(); ++j)
            for (std::size_t i = 0; i < t[j].size(); ++i)
                r |= static_cast<unsigned>((ry == j) & (rx == i)) * t[j][i];
        return r;
    }
};
UC zone(std::uint64_t lo = 0, std::uint64_t hi = big())
{
    const auto x = vx_range("x", lo, hi), y = vx_range("y", lo, hi), z = vx_range("z", 0, 1);
    return UC{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(z)};
}
template <typename L>
void consistent(const L& l, const UC& c, const UC& d, unsigned n)
{
    const unsigned a = l.get_clock_number(c), b = l.get_clock_number(d);
    vx_check(l.num_clocks() == n && a < n && b < n, "clock numbers lie below the number of clocks");
    vx_check(l.is_outgoing_clocked(c, d) == ((b == (a + 1) % n) & !(c == d)), "outgoing means the next phase");
    vx_check(l.is_incoming_clocked(c, d) == ((a == (b + 1) % n) & !(c == d)), "incoming means the previous phase");
    vx_check(l.is_incoming_clocked(c, d) == l.is_outgoing_clocked(d, c), "information leaves one zone and arrives at the other");
}
// The zone lists of c are the neighbours with the predicate.
template <typename L>
void lists(const L& l, const UC& c)
{
    const auto in = l.incoming_clocked_zones(c), out = l.outgoing_clocked_zones(c);
    std::size_t ni = 0, no = 0;
    l.foreach_adjacent_coordinate(c,
                                  [&](const auto& a)
                                  {
                                      if (l.is_incoming_clocked(c, a))
                                      {
                                          vx_check(ni < in.size() && in[ni] == a, "incoming zones are the neighbours of the previous phase");
                                          ++ni;
                                      }
                                      if (l.is_outgoing_clocked(c, a))
                                      {
                                          vx_check(no < out.size() && out[no] == a, "outgoing zones are the neighbours of the next phase");
                                          ++no;
                                      }
                                  });
    vx_check(ni == in.size() && no == out.size() && l.in_degree(c) == ni && l.out_degree(c) == no, "the degrees count the incoming and outgoing zones");
}
}  // namespace
VX_ENTRY(clk_tables)
{
    // the named schemes assign the published clock numbers, on all zones
    const auto& k = schemes[vx_concretize(vx_range("scheme", 0, NS - 1))];
    const auto  s = get_clocking_scheme<CART>(k.key);
    vx_check(s.has_value(), "the scheme exists");
    const UC c = zone();
    vx_check(*s == std::string{k.name} && s->num_clocks == k.clocks && s->is_regular(), "name, phases and regularity of the scheme");
    const unsigned cn = (*s)(c);
    vx_check(cn < k.clocks, "clock numbers lie below the number of clocks");
    vx_check(cn == table{k.rows}.at(static_cast<std::uint64_t>(c.x), static_cast<std::uint64_t>(c.y)), "the zone has the published clock number");
    vx_check(is_linear_scheme<CART>(*s) == (std::string{k.name} == "COLUMNAR" || std::string{k.name} == "ROW" || std::string{k.name} == "2DDWAVE"), "the linear schemes");
    vx_observe(cn);
}
VX_ENTRY(clk_open)
{
    const UC c = zone(), d{static_cast<std::int32_t>(vx_range("dx", 0, big())), static_cast<std::int32_t>(vx_range("dy", 0, big())), static_cast<std::int32_t>(vx_range("dz", 0, 1))};
    const unsigned n = static_cast<unsigned>(vx_concretize(vx_range("n", 3, 4)));
    const unsigned w = static_cast<unsigned>(vx_concretize(vx_range("written", 0, 2)));
    auto           s = *get_clocking_scheme<CART>(w == 0 ? (n == 3 ? "OPEN3" : "OPEN4") : w == 1 ? (n == 3 ? "open3" : "oPeN") : (n == 3 ? "OpEN3" : "open"));
    vx_check(s.num_clocks == n && s == std::string{"OPEN"} && s(c) == 0 && !s.is_regular() && !is_linear_scheme<CART>(s), "open clocking assigns 0 to every zone");
    const auto v = vx_u8("v"), v2 = vx_u8("v2");
    s.override_clock_number(c, v);
    vx_check(s(c) == v % n && s(d) == (c == d ? v % n : 0), "an assigned clock number is found for its zone and no other one");
    s.override_clock_number(d, v2);
    vx_check(s(d) == v2 % n && s(c) == (c == d ? v2 % n : v % n), "a second assignment keeps the first one of another zone");
    auto t = s;
    t.override_clock_number(c, 1);
    vx_check(t(c) == 1 && s(c) == (c == d ? v2 % n : v % n), "copies of a scheme are independent");
}
VX_ENTRY(clk_override)
{
    // overriding single zones of a regular scheme
    const auto& k = schemes[vx_concretize(vx_range("scheme", 0, NS - 1))];
    auto        s = *get_clocking_scheme<CART>(k.key);
    const auto  regular = s;
    const UC    c = zone(), d{static_cast<std::int32_t>(vx_range("dx", 0, big())), static_cast<std::int32_t>(vx_range("dy", 0, big())), 0};
    const auto  v = vx_u8("v");
    s.override_clock_number(c, v);
    vx_check(!s.is_regular() && regular.is_regular(), "an overridden scheme is irregular");
    vx_check(s(c) == v % k.clocks, "the overridden zone has the assigned number");
    if (!(c == d))
        vx_check(s(d) == regular(d), "all other zones keep theirs");
}
VX_ENTRY(clk_lookup)
{
    // lookup is insensitive to case and knows no other names
    static const char* const names[] = {"OPEN", "OPEN3", "OPEN4", "COLUMNAR", "COLUMNAR3", "COLUMNAR4", "ROW", "ROW3", "ROW4", "2DDWAVE", "2DDWAVE3", "2DDWAVE4", "2DDWAVEHEX", "2DDWAVEHEX3", "2DDWAVEHEX4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS"};
    const auto  i = vx_concretize(vx_range("name", 0, sizeof(names) / sizeof(names[0]) - 1));
    std::string n{names[i]};
    const auto  lower = vx_concretize(vx_range("lower", 0, 3));
    for (std::size_t j = 0; j < n.size(); ++j)
        if ((lower == 1) || (lower == 2 && (j & 1)) || (lower == 3 && !(j & 1)))
            n[j] = static_cast<char>(std::tolower(static_cast<unsigned char>(n[j])));
    const auto s = get_clocking_scheme<CART>(n);
    vx_check(s.has_value(), "names are looked up regardless of case");
    if (s)
        vx_check(std::string{names[i]}.rfind(i >= 12 && i <= 14 ? "2DDWAVE" : std::string{s->name}, 0) == 0, "the scheme has the requested name");
    const auto j = vx_concretize(vx_range("at", 0, n.size() - 1));
    std::string wrong = n;
    wrong[j]          = '#';
    const auto known_name = [](const std::string& t)
    {
        for (const auto* m : names)
        {
            std::string u{m};
            bool        eq = u.size() == t.size();
            for (std::size_t q = 0; eq && q < u.size(); ++q)
                eq = u[q] == t[q] || std::tolower(static_cast<unsigned char>(u[q])) == t[q];
            if (eq)
                return true;
        }
        return false;
    };
    for (const auto& t : {wrong, n + "5", n.substr(0, j), " " + n})
        vx_check(get_clocking_scheme<CART>(t).has_value() == known_name(t), "no other name is found");
}
VX_ENTRY(clk_flow)
{
    // every interior zone receives and passes on information, within the degree limits
    const auto& k = schemes[vx_concretize(vx_range("scheme", 0, NS - 1))];
    CART        l{UC{static_cast<std::int32_t>(big() + 1), static_cast<std::int32_t>(big() + 1), 1}, *get_clocking_scheme<CART>(k.key)};
    const auto  s = l.get_clocking_scheme();
    const UC    c = zone(1);
    const UC nb[4] = {l.north(c), l.east(c), l.south(c), l.west(c)};
    unsigned in = 0, out = 0;
    for (const auto& d : nb)
    {
        in += l.is_incoming_clocked(c, d);
        out += l.is_outgoing_clocked(c, d);
    }
    vx_check(in >= 1 && out >= 1, "no zone is a dead end or without a source");
    vx_check(in <= s.max_in_degree && out <= s.max_out_degree, "degrees stay within the scheme's limits");
    vx_check(in <= k.in && out <= k.out, "degrees stay within the published limits");
    if (is_linear_scheme<CART>(s))
        vx_check(!l.is_outgoing_clocked(c, nb[0]) && !l.is_outgoing_clocked(c, nb[3]), "linear schemes never send information north or west");
    vx_observe(in + 8 * out);
}
template <typename L>
static void hexflow(bool row, bool odd)
{
    const bool three = vx_concretize(vx_range("three", 0, 1)) != 0;
    const auto which = vx_concretize(vx_range("which", 0, 3));
    const std::uint64_t lim = VX_B(1u << 6, 1u << 12);
    static const char* const names[4][2] = {{"2DDWAVEHEX4", "2DDWAVEHEX3"}, {"ROW", "ROW3"}, {"COLUMNAR", "COLUMNAR3"}, {"2DDWAVEHEX", "2DDWaveHex3"}};
    L          l{UC{static_cast<std::int32_t>(lim + 1), static_cast<std::int32_t>(lim + 1), 1}, *get_clocking_scheme<L>(names[which][three])};
    const auto s = l.get_clocking_scheme();
    const UC   c = zone(1, lim);
    const unsigned n = three ? 3 : 4;
    const auto x = static_cast<std::uint64_t>(c.x), y = static_cast<std::uint64_t>(c.y);
    const unsigned cn = l.get_clock_number(c);
    vx_check(l.num_clocks() == n && cn < n && s.is_regular() && is_linear_scheme<L>(s), "a linear scheme of three or four phases");
    switch (which)
    {
        case 1: vx_check(cn == y % n, "row clocking"); break;
        case 2: vx_check(cn == x % n, "columnar clocking"); break;
        default: vx_check(s == std::string{"2DDWAVEHEX"} && cn == (row ? (x + (y + odd) / 2) % n : (y + (x + odd) / 2) % n), "hexagonal 2DDWave clocking");
    }
    unsigned in = 0, out = 0;
    l.foreach_adjacent_coordinate(c,
                                  [&](const auto& d)
                                  {
                                      const bool o = l.is_outgoing_clocked(c, d), i = l.is_incoming_clocked(c, d);
                                      in += i;
                                      out += o;
                                      // a potential that grows along every connection: there are no cycles
                                      const auto          dx = static_cast<std::uint64_t>(d.x), dy = static_cast<std::uint64_t>(d.y);
                                      const std::uint64_t p = which == 1 ? y : which == 2 ? x : row ? x + (y + odd) / 2 : y + (x + odd) / 2;
                                      const std::uint64_t q = which == 1 ? dy : which == 2 ? dx : row ? dx + (dy + odd) / 2 : dy + (dx + odd) / 2;
                                      vx_check((!o | (q == p + 1)) & (!i | (p == q + 1)), "linear schemes only send information forward");
                                  });
    vx_check(in >= 1 && out >= 1, "no zone is a dead end or without a source");
    if (which == 0 || which == 3)
        vx_check(in == out && in <= s.max_in_degree && out <= s.max_out_degree, "a wave front passes from as many zones as it goes on to");
    vx_observe(in + 8 * out);
}
VX_ENTRY(clk_hex_or) { hexflow<OR>(true, true); }
VX_ENTRY(clk_hex_er) { hexflow<ER>(true, false); }
VX_ENTRY(clk_hex_oc) { hexflow<OC>(false, true); }
VX_ENTRY(clk_hex_ec) { hexflow<EC>(false, false); }
VX_ENTRY(lyt_regular)
{
    const auto& k = schemes[vx_concretize(vx_range("scheme", 0, NS - 1))];
    CART        l{UC{3, 3, 1}, *get_clocking_scheme<CART>(k.key)};
    const auto  z = static_cast<std::int32_t>(vx_range("z", 0, 1));
    const UC    c{static_cast<std::int32_t>(vx_range("x", 0, 3)), static_cast<std::int32_t>(vx_range("y", 0, 3)), z};
    const UC    d{static_cast<std::int32_t>(vx_range("dx", 0, 3)), static_cast<std::int32_t>(vx_range("dy", 0, 3)), static_cast<std::int32_t>(vx_range("dz", 0, 1))};
    consistent(l, c, d, k.clocks);
    lists(l, c);
    vx_check(l.is_clocking_scheme(k.name) && l.is_regularly_clocked() && l.degree(c) == l.in_degree(c) + l.out_degree(c), "the scheme of the layout");
}
VX_ENTRY(lyt_irregular)
{
    // clock numbers assigned zone by zone
    const unsigned n = static_cast<unsigned>(vx_concretize(vx_range("n", 3, 4)));
    CART           l{UC{1, 1, 0}, open_clocking<CART>(n == 3 ? num_clks::THREE : num_clks::FOUR)};
    unsigned       v[2][2];
    for (int y = 0; y < 2; ++y)
        for (int x = 0; x < 2; ++x)
        {
            v[y][x] = vx_u8(x ? (y ? "v11" : "v10") : (y ? "v01" : "v00"));
            l.assign_clock_number(UC{x, y, 0}, static_cast<std::uint8_t>(v[y][x]));
        }
    const auto cx = static_cast<int>(vx_concretize(vx_range("x", 0, 1))), cy = static_cast<int>(vx_concretize(vx_range("y", 0, 1)));
    const UC   c{cx, cy, 0}, d{1 - cx, cy, 0}, e{1 - cx, 1 - cy, 0};
    vx_check(l.get_clock_number(c) == v[cy][cx] % n && l.get_clock_number(e) == v[1 - cy][1 - cx] % n, "assigned clock numbers are read back modulo the number of clocks");
    consistent(l, c, d, n);
    consistent(l, c, e, n);
    lists(l, c);
    vx_check(!l.is_regularly_clocked(), "assigned clock numbers make a layout irregular");
    l.replace_clocking_scheme(use_clocking<CART>());
    vx_check(l.is_clocking_scheme("USE") && l.is_regularly_clocked() && l.get_clock_number(UC{1, 1, 0}) == 2 && l.get_clock_number(UC{0, 1, 0}) == 3, "a replaced scheme forgets the assigned numbers");
}
VX_ENTRY(lyt_clone)
{
    // a clone and its original do not influence each other
    const auto  which = vx_concretize(vx_range("scheme", 0, NS));
    auto        s = which == NS ? open_clocking<CART>() : *get_clocking_scheme<CART>(schemes[which].key);
    CART        l{UC{2, 2, 1}, s};
    const UC    c{static_cast<std::int32_t>(vx_range("x", 0, 2)), static_cast<std::int32_t>(vx_range("y", 0, 2)), 0};
    const UC    d{static_cast<std::int32_t>(vx_range("dx", 0, 2)), static_cast<std::int32_t>(vx_range("dy", 0, 2)), 0};
    const auto  v0 = vx_u8("v0");
    const auto  n = l.num_clocks();
    const bool  pre = vx_concretize(vx_range("assigned before", 0, 1)) != 0;
    if (pre)
        l.assign_clock_number(c, v0);
    CART       copy = l.clone();
    const auto before = l.get_clock_number(d);
    vx_check(copy.get_clock_number(c) == l.get_clock_number(c) && copy.get_clock_number(d) == before && copy.num_clocks() == n && copy.is_regularly_clocked() == l.is_regularly_clocked(), "a clone has the same clock numbers");
    const auto v = vx_u8("v");
    const auto reg = l.is_regularly_clocked();
    copy.assign_clock_number(d, v);
    vx_check(copy.get_clock_number(d) == v % n, "the clone has the assigned number");
    vx_check(l.get_clock_number(d) == before && l.is_regularly_clocked() == reg, "assigning a clock number to a clone leaves the original alone");
    const auto w = vx_u8("w");
    l.assign_clock_number(d, w);
    vx_check(l.get_clock_number(d) == w % n && copy.get_clock_number(d) == v % n, "assigning a clock number to the original leaves the clone alone");
}
VX_ENTRY(se_layout)
{
    SE         l{UC{2, 2, 0}, twoddwave_clocking<CART>(vx_concretize(vx_range("three", 0, 1)) ? num_clks::THREE : num_clks::FOUR)};
    const CART plain{UC{2, 2, 0}, l.get_clocking_scheme()};
    const UC   a{static_cast<std::int32_t>(vx_range("ax", 0, 2)), static_cast<std::int32_t>(vx_range("ay", 0, 2)), 0};
    const UC   b{static_cast<std::int32_t>(vx_range("bx", 0, 2)), static_cast<std::int32_t>(vx_range("by", 0, 2)), 0};
    const UC   c{static_cast<std::int32_t>(vx_range("cx", 0, 2)), static_cast<std::int32_t>(vx_range("cy", 0, 2)), 0};
    const auto sa = vx_u8("sa"), sb = vx_u8("sb");
    vx_check(l.num_se() == 0 && !l.is_synchronization_element(a) && l.get_synchronization_element(a) == 0, "no synchronization element at first");
    l.assign_synchronization_element(a, sa);
    auto copy = l.clone();
    l.assign_synchronization_element(b, sb);
    const bool same = a == b;
    vx_check(l.get_synchronization_element(b) == sb && l.get_synchronization_element(a) == (same ? sb : sa), "synchronization elements are read back");
    vx_check(l.is_synchronization_element(a) == (same ? sb != 0 : sa != 0) && l.is_synchronization_element(b) == (sb != 0), "zones with a positive delay are synchronization elements");
    vx_check(l.num_se() == (same ? (sb != 0) : (sa != 0) + (sb != 0)), "the number of synchronization elements");
    vx_check(copy.num_se() == (sa != 0) && copy.get_synchronization_element(a) == sa, "a clone is independent");
    const bool se = l.is_synchronization_element(a) | l.is_synchronization_element(c);
    const bool ac = a == c;
    vx_check(l.is_incoming_clocked(a, c) == (!ac & (plain.is_incoming_clocked(a, c) | se)), "synchronization elements receive from all their neighbours");
    vx_check(l.is_outgoing_clocked(a, c) == (!ac & (plain.is_outgoing_clocked(a, c) | se)), "synchronization elements send to all their neighbours");
    lists(l, c);
}
