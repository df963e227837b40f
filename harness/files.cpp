// Layouts written to files are read back as they were.
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/io/read_fgl_layout.hpp>
#include <fiction/io/read_sqd_layout.hpp>
#include <fiction/io/write_fgl_layout.hpp>
#include <fiction/io/write_sqd_layout.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/types.hpp>
#include <sstream>

using namespace fiction;
using namespace nets;

namespace
{
template <typename L>
using GATE = gate_level_layout<clocked_layout<tile_based_layout<L>>>;
using CART = GATE<cartesian_layout<offset::ucoord_t>>;
using HEX  = GATE<hexagonal_layout<offset::ucoord_t, even_row_hex>>;

template <typename Lyt>
std::string written(const Lyt& l)
{
    std::stringstream ss{};
    write_fgl_layout(l, ss);
    return ss.str();
}
template <typename Lyt>
Lyt read(const std::string& s)
{
    std::stringstream ss{s};
    return read_fgl_layout<Lyt>(ss);
}
template <typename Lyt>
std::vector<std::uint64_t> fanin_tiles(const Lyt& l, const typename Lyt::node& n)
{
    std::vector<std::uint64_t> r;
    l.foreach_fanin(n, [&](const auto& f) { r.push_back(static_cast<std::uint64_t>(f)); });
    return r;
}
template <typename Lyt>
void check_same(const Lyt& a, const Lyt& b)
{
    vx_check(a.x() == b.x() && a.y() == b.y() && a.z() == b.z(), "the size remains");
    vx_check(get_name(a) == get_name(b), "the name of the layout remains");
    bool nodes = true, functions = true, connections = true, clocks = true, names = true;
    // files hold one number per zone, i.e. for all of its layers
    a.foreach_tile([&](const auto& t) { clocks = clocks && ((t.z != 0 && a.is_empty_tile(t)) || a.get_clock_number(t) == b.get_clock_number(t)); });
    vx_check(clocks && a.num_clocks() == b.num_clocks(), "clock numbers remain");
    vx_check(a.is_regularly_clocked() == b.is_regularly_clocked() && a.get_clocking_scheme().name == b.get_clocking_scheme().name, "the clocking scheme remains");
    a.foreach_tile(
        [&](const auto& t)
        {
            const auto n = a.get_node(t), m = b.get_node(t);
            nodes        = nodes && a.is_empty_tile(t) == b.is_empty_tile(t);
            if (!nodes || a.is_empty_tile(t))
                return;
            nodes       = nodes && a.is_pi(n) == b.is_pi(m) && a.is_po(n) == b.is_po(m) && a.is_wire(n) == b.is_wire(m);
            functions   = functions && a.node_function(n) == b.node_function(m);
            connections = connections && fanin_tiles(a, n) == fanin_tiles(b, m) && a.fanout_size(n) == b.fanout_size(m);
            if (a.is_pi(n) || a.is_po(n))
                names = names && a.get_name(n) == b.get_name(m);
        });
    vx_check(nodes, "nodes remain on their tiles");
    vx_check(functions, "functions remain");
    vx_check(connections, "connections remain in their order");
    vx_check(names, "inputs and outputs keep their names");
    vx_check(a.num_pis() == b.num_pis() && a.num_pos() == b.num_pos() && a.num_gates() == b.num_gates() && a.num_wires() == b.num_wires() && a.num_crossings() == b.num_crossings(), "counts remain");
    bool order = true;
    for (unsigned i = 0; i < a.num_pis() && i < b.num_pis(); ++i)
        order = order && a.get_tile(a.pi_at(i)) == b.get_tile(b.pi_at(i));
    for (unsigned i = 0; i < a.num_pos() && i < b.num_pos(); ++i)
        order = order && a.get_tile(a.get_node(a.po_at(i))) == b.get_tile(b.get_node(b.po_at(i)));
    vx_check(order, "the order of inputs and outputs remains");
}
}  // namespace

// one gate of any function with its inputs around it, in any order
VX_ENTRY(fi_gate)
{
    CART       l{{2, 2, 1}, open_clocking<CART>(num_clks::FOUR)};
    using T = tile<CART>;
    const T    at[] = {{0, 1}, {1, 0}, {1, 2}};
    const T    g{1, 1}, o{2, 1};
    const auto n     = pick("inputs", 1, 3);
    const auto first = pick("first", 0, 2), second = n > 1 ? pick("second", 0, 1) : 0;
    unsigned   perm[] = {first, (first + 1 + second) % 3, (first + 2 - second) % 3};
    const bool reverse = n > 1 && pick("reverse", 0, 1);  // of the connections
    for (const auto& t : at)
        l.assign_clock_number(t, 0);
    l.assign_clock_number(g, 1);
    l.assign_clock_number(o, 2);
    std::vector<std::uint64_t> s;
    for (unsigned i = 0; i < n; ++i)
        s.push_back(l.create_pi("i" + std::to_string(i), at[perm[i]]));
    if (reverse)
        std::reverse(s.begin(), s.end());
    const auto type = pick("type", 0, n == 1 ? 4 : n == 2 ? 12 : 5);
    const auto hex  = [&](const char* h)
    {
        kitty::dynamic_truth_table tt(n);
        kitty::create_from_hex_string(tt, h);
        return l.create_node(s, tt, g);
    };
    std::uint64_t r;
    if (n == 1)
        r = type == 0 ? l.create_buf(s[0], g) : type == 1 ? l.create_not(s[0], g) : hex(type == 2 ? "0" : type == 3 ? "3" : "1");
    else if (n == 2)
        switch (type)
        {
            case 0: r = l.create_and(s[0], s[1], g); break;
            case 1: r = l.create_nand(s[0], s[1], g); break;
            case 2: r = l.create_or(s[0], s[1], g); break;
            case 3: r = l.create_nor(s[0], s[1], g); break;
            case 4: r = l.create_xor(s[0], s[1], g); break;
            case 5: r = l.create_xnor(s[0], s[1], g); break;
            case 6: r = l.create_lt(s[0], s[1], g); break;
            case 7: r = l.create_gt(s[0], s[1], g); break;
            case 8: r = l.create_le(s[0], s[1], g); break;
            case 9: r = l.create_ge(s[0], s[1], g); break;
            case 10: r = hex("a"); break;
            case 11: r = hex("3"); break;
            default: r = hex("0"); break;
        }
    else
        r = type == 0 ? l.create_maj(s[0], s[1], s[2], g) : hex(type == 1 ? "1b" : type == 2 ? "d8" : type == 3 ? "80" : type == 4 ? "fe" : "07");
    l.create_po(r, "o", o);
    check_same(l, read<CART>(written(l)));
    vx_reach("gate");
}
VX_ENTRY(fi_cartesian)
{
    const auto n = make<NAM>({.max_pi = 2, .gates = VX_B(2u, 3u), .pos = 2, .types = 1u << NOT | 1u << LT | 1u << AND, .free_pi = false, .distinct = true});
    const auto l = orthogonal<CART>(n.ntk);
    check_same(l, read<CART>(written(l)));
    CART              m{};
    std::stringstream ss{written(l)};
    read_fgl_layout(m, ss);
    check_same(l, m);
    vx_reach("cartesian");
}
VX_ENTRY(fi_hexagonal)
{
    const auto n = make<NAM>({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << NOT | 1u << LT, .free_pi = false, .distinct = true});
    const auto l = hexagonalization<HEX>(orthogonal<CART>(n.ntk));
    check_same(l, read<HEX>(written(l)));
    vx_reach("hexagonal");
}

namespace
{
template <typename Lyt>
void with_type(const unsigned k, const std::string& s, const unsigned is)
{
    bool thrown = false;
    try
    {
        (void)read<Lyt>(s);
    }
    catch (const fgl_parsing_error&)
    {
        thrown = true;
    }
    vx_check(thrown == (k != is), "a file is read as a layout of its topology only");
}
template <typename Lyt>
void topology_case(const unsigned k)
{
    Lyt        l{{2, 1, 1}, open_clocking<Lyt>(num_clks::FOUR)};
    using T = tile<Lyt>;
    const T a{pick("x", 0, 2), pick("y", 0, 1)};
    l.assign_clock_number(a, 1);
    const auto              p = l.create_pi("a", a);
    std::vector<tile<Lyt>>  adj = l.adjacent_tiles(a);
    const auto              b   = adj[pick("neighbour", 0, static_cast<unsigned>(adj.size()) - 1)];
    l.assign_clock_number(b, 2);
    l.create_po(p, "b", b);
    const auto s = written(l);
    check_same(l, read<Lyt>(s));
    with_type<GATE<cartesian_layout<offset::ucoord_t>>>(0, s, k);
    with_type<GATE<shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>>>(1, s, k);
    with_type<GATE<shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>>>(2, s, k);
    with_type<GATE<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>>(3, s, k);
    with_type<GATE<shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>>>(4, s, k);
    with_type<GATE<hexagonal_layout<offset::ucoord_t, odd_row_hex>>>(5, s, k);
    with_type<GATE<hexagonal_layout<offset::ucoord_t, even_row_hex>>>(6, s, k);
    with_type<GATE<hexagonal_layout<offset::ucoord_t, odd_column_hex>>>(7, s, k);
    with_type<GATE<hexagonal_layout<offset::ucoord_t, even_column_hex>>>(8, s, k);
    vx_reach("topology");
}
}  // namespace
VX_ENTRY(fi_topologies)
{
    switch (pick("topology", 0, 8))
    {
        case 0: topology_case<GATE<cartesian_layout<offset::ucoord_t>>>(0); break;
        case 1: topology_case<GATE<shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>>>(1); break;
        case 2: topology_case<GATE<shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>>>(2); break;
        case 3: topology_case<GATE<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>>(3); break;
        case 4: topology_case<GATE<shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>>>(4); break;
        case 5: topology_case<GATE<hexagonal_layout<offset::ucoord_t, odd_row_hex>>>(5); break;
        case 6: topology_case<GATE<hexagonal_layout<offset::ucoord_t, even_row_hex>>>(6); break;
        case 7: topology_case<GATE<hexagonal_layout<offset::ucoord_t, odd_column_hex>>>(7); break;
        default: topology_case<GATE<hexagonal_layout<offset::ucoord_t, even_column_hex>>>(8); break;
    }
}
VX_ENTRY(fi_clocking)
{
    static const char* names[] = {"OPEN3", "OPEN4", "COLUMNAR3", "COLUMNAR4", "ROW3", "ROW4", "2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS"};
    const auto         scheme  = get_clocking_scheme<CART>(names[pick("scheme", 0, 14)]);
    vx_check(scheme.has_value(), "the scheme exists");
    const auto w = pick("w", 0, 3), h = pick("h", 0, 3);
    CART       l{{w, h}, *scheme};
    const auto n = pick("overrides", 0, w == 1 && h == 1 ? 2 : 1);
    for (unsigned i = 0; i < n; ++i)
    {
        const tile<CART> t{pick(nm("x", i), 0, 1), pick(nm("y", i), 0, 1)};
        l.assign_clock_number(t, static_cast<typename CART::clock_number_t>(pick(nm("number", i), 0, 2)));
    }
    
    check_same(l, read<CART>(written(l)));
    vx_reach("clocking");
}
VX_ENTRY(fi_crossing)
{
    // two wires cross under any clocking, on any layer
    using T = tile<CART>;
    CART       l{{2, 2, 1}, open_clocking<CART>(pick("phases", 0, 1) ? num_clks::THREE : num_clks::FOUR)};
    const auto c    = pick("clock", 0, l.num_clocks() - 1);
    const bool over = pick("over", 0, 1), far = pick("far", 0, 1);
    const auto set  = [&](unsigned x, unsigned y, unsigned k)
    {
        l.assign_clock_number(T{x, y, 0}, static_cast<std::uint8_t>((c + k) % l.num_clocks()));
        l.assign_clock_number(T{x, y, 1}, static_cast<std::uint8_t>((c + k) % l.num_clocks()));
    };
    set(1, 0, 0), set(0, 1, 0), set(1, 1, 1), set(1, 2, 2), set(2, 1, 2), set(2, 2, 3);
    const auto a = l.create_pi("a", {1, 0}), b = l.create_pi("b", {0, 1});
    const auto x = l.create_buf(a, over ? T{1, 1, 1} : T{1, 1, 0}), y = l.create_buf(b, over ? T{1, 1, 0} : T{1, 1, 1});
    l.create_po(x, "x", {1, 2});
    if (far)
        l.create_po(l.create_not(y, {2, 1}), "y", {2, 2});
    else
        l.create_po(y, "y", {2, 1});
    check_same(l, read<CART>(written(l)));
    vx_reach("crossing");
}
VX_ENTRY(fi_names)
{
    static const char* names[] = {"", "a b", "x[0]", "a&b", "<c>", "\"q\"", "it's", "a&lt;b"};
    CART               l{{2, 0}, twoddwave_clocking<CART>()};
    const auto         p = l.create_pi(names[pick("input", 0, 7)], {0, 0});
    l.create_po(l.create_not(p, {1, 0}), names[pick("output", 0, 7)], {2, 0});
    set_name(l, names[pick("layout", 0, 7)]);
    check_same(l, read<CART>(written(l)));
    vx_reach("names");
}

namespace
{
using CELLS   = cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<siqad::coord_t>>>;
using OCELLS  = cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<offset::ucoord_t>>>;
using LAT100  = sidb_lattice<sidb_100_lattice, CELLS>;
using LAT111  = sidb_lattice<sidb_111_lattice, CELLS>;
using SURF100 = sidb_defect_surface<LAT100>;
using OLAT    = sidb_lattice<sidb_100_lattice, OCELLS>;
using OSURF   = sidb_defect_surface<OLAT>;

using ct = sidb_technology::cell_type;
template <typename Lyt>
cell<Lyt> position(unsigned i, int lo, unsigned w)
{
    // bare dimer positions
    const int n = static_cast<int>(pick(nm("n", i), 0, w)) + lo, m = static_cast<int>(pick(nm("m", i), 0, 1)) + lo, d = static_cast<int>(pick(nm("l", i), 0, 1));
    if constexpr (has_siqad_coord_v<Lyt>)
        return {n, m, d};
    else
        return {n, 2 * m + d};
}
template <typename Lyt>
std::string sqd(const Lyt& l)
{
    std::stringstream ss{};
    write_sqd_layout(l, ss);
    return ss.str();
}
template <typename Lyt>
void dots_case(int lo)
{
    static constexpr ct types[] = {ct::NORMAL, ct::INPUT, ct::OUTPUT, ct::LOGIC};
    using C                     = cell<Lyt>;
    Lyt                            l{};
    std::vector<std::pair<C, ct>>  want;
    const auto                     n = pick("dots", 0, 2);  // the first near, the second far
    for (unsigned i = 0; i < n; ++i)
    {
        const C c = position<Lyt>(i, lo, i == 0 ? 1 : VX_B(3u, 10u));
        for (const auto& w : want)
            vx_assume(!(w.first == c));
        want.emplace_back(c, types[pick(nm("type", i), 0, 3)]);
        l.assign_cell_type(c, want.back().second);
    }
    std::stringstream ss{sqd(l)};
    const auto        r  = read_sqd_layout<Lyt>(ss, "name");
    bool              ok = r.num_cells() == n;
    for (const auto& w : want)
        ok = ok && r.get_cell_type(w.first) == w.second && r.is_within_bounds(w.first);
    vx_check(ok, "dots keep their positions and types");
    vx_check(r.num_pis() == l.num_pis() && r.num_pos() == l.num_pos(), "inputs and outputs remain");
    vx_check(r.get_layout_name() == "name", "the layout is named as told");
    unsigned seen = 0;
    r.foreach_cell([&](const auto&) { ++seen; });
    vx_check(seen == n, "each dot is listed once");
    vx_reach("dots");
}
}  // namespace
VX_ENTRY(fi_dots) { dots_case<LAT100>(0); }
VX_ENTRY(fi_dots_111) { dots_case<LAT111>(0); }
VX_ENTRY(fi_dots_offset) { dots_case<OLAT>(0); }
VX_ENTRY(fi_dots_lattice)
{
    LAT100 a{};
    LAT111 b{};
    a.assign_cell_type({1, 1, 1}, ct::INPUT);
    b.assign_cell_type({1, 1, 1}, ct::INPUT);
    const bool   first = pick("first", 0, 1);
    std::stringstream ss{first ? sqd(a) : sqd(b)}, tt{first ? sqd(a) : sqd(b)};
    bool         t100 = false, t111 = false;
    try
    {
        (void)read_sqd_layout<LAT100>(ss);
    }
    catch (const sqd_parsing_error&)
    {
        t100 = true;
    }
    try
    {
        (void)read_sqd_layout<LAT111>(tt);
    }
    catch (const sqd_parsing_error&)
    {
        t111 = true;
    }
    vx_check(t100 == !first && t111 == first, "a file is read as a layout of its lattice only");
    vx_reach("lattice");
}
namespace
{
template <typename Lyt>
void defects_case()
{
    static const double eps[] = {5.6, 9.7, 1}, lam[] = {5, 2.1, 0.125};
    Lyt                 l{};
    using C = cell<Lyt>;
    const auto d = position<Lyt>(0, 0, 2);
    const auto c = [] { if constexpr (has_siqad_coord_v<Lyt>) return C{1, 2, 0}; else return C{1, 4}; }();
    l.assign_cell_type(c, ct::LOGIC);
    const auto        k = pick("kind", 1, 14);
    const auto        p = pick("properties", 0, 2);
    const sidb_defect x{static_cast<sidb_defect_type>(k), static_cast<int64_t>(pick("charge", 0, 2)) - 1, eps[p], lam[(p + k) % 3]};
    l.assign_sidb_defect(d, x);
    const auto e = static_cast<unsigned>(pick("second", 0, 1));
    const C    f = [] { if constexpr (has_siqad_coord_v<Lyt>) return C{3, 0, 1}; else return C{3, 1}; }();
    if (e)
        l.assign_sidb_defect(f, sidb_defect{sidb_defect_type::DB, -1, 4.5, 3.5});
    std::stringstream ss{sqd(l)};
    const auto        r = read_sqd_layout<Lyt>(ss);
    vx_check(r.num_cells() == 1 && r.get_cell_type(c) == ct::LOGIC, "dots keep their positions and types");
    const auto y = r.get_sidb_defect(d);
    vx_check(r.num_defects() == 1 + e && y.type == x.type, "defects keep their positions and types");
    vx_check(x.charge != 0 ? y.charge == x.charge && y.epsilon_r == x.epsilon_r && y.lambda_tf == x.lambda_tf : y.charge == 0, "charged defects keep their properties");
    vx_check(!e || r.get_sidb_defect(f) == l.get_sidb_defect(f), "every defect is kept");
    vx_reach("defects");
}
}  // namespace
VX_ENTRY(fi_defects) { defects_case<SURF100>(); }
VX_ENTRY(fi_defects_offset) { defects_case<OSURF>(); }
