// Distances, shortest paths, enumeration of paths.
#include "vx.h"
#include <fiction/algorithms/path_finding/a_star.hpp>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/algorithms/path_finding/k_shortest_paths.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/utils/routing_utils.hpp>
#include <algorithm>
#include <cstdint>
#include <vector>
using namespace fiction;
namespace
{
using UC   = offset::ucoord_t;
using CART = cartesian_layout<UC>;
using CLK  = clocked_layout<tile_based_layout<CART>>;
using GATE = gate_level_layout<CLK>;
const char* BN[20] = {"b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12", "b13", "b14", "b15", "b16", "b17", "b18", "b19"};
UC at(int w, int i)
{
    return UC{i % w, i / w, 0};
}
// reference: a plain graph over the tiles, row by row
struct graph
{
    int  n       = 0;
    bool e[16][16] = {};
    bool open[16]  = {};
    // length of a shortest path, -1 if there is none; blocked tiles may only be source or target
    int shortest(int s, int t) const
    {
        int d[16];
        for (int i = 0; i < n; ++i)
            d[i] = -1;
        d[s] = 0;
        for (int r = 0; r < n; ++r)
            for (int i = 0; i < n; ++i)
                if (d[i] == r && i != t)
                    for (int j = 0; j < n; ++j)
                        if (e[i][j] && d[j] < 0 && (open[j] || j == t))
                            d[j] = r + 1;
        return d[t];
    }
    void all(int v, int t, unsigned seen, int len, std::vector<int>& lengths) const
    {
        if (v == t)
        {
            lengths.push_back(len);
            return;
        }
        for (int j = 0; j < n; ++j)
            if (e[v][j] && ((seen >> j) & 1u) == 0 && (open[j] || j == t))
                all(j, t, seen | (1u << j), len + 1, lengths);
    }
};
template <typename L>
bool is_path(const graph& g, int w, const layout_coordinate_path<L>& p, int s, int t)
{
    if (p.empty() || p.source() != at(w, s) || p.target() != at(w, t))
        return false;
    unsigned seen = 0;
    int      prev = -1;
    for (const auto& c : p)
    {
        const int i = c.y * w + c.x;
        if (c.z != 0 || c.x >= w || ((seen >> i) & 1u) != 0)
            return false;
        if (prev >= 0 && (!g.e[prev][i] || (!g.open[i] && i != t)))
            return false;
        seen |= 1u << i;
        prev = i;
    }
    return true;
}
// a plain grid with arbitrary blocked tiles and up to one blocked connection
template <typename L>
graph grid(obstruction_layout<L>& l, int w, int h)
{
    graph g;
    g.n = w * h;
    for (int i = 0; i < g.n; ++i)
    {
        g.open[i] = true;
        for (int j = 0; j < g.n; ++j)
        {
            const int dx = i % w - j % w, dy = i / w - j / w;
            g.e[i][j] = dx * dx + dy * dy == 1;
        }
    }
    for (int i = 0; i < g.n; ++i)
        if (vx_concretize(vx_range(BN[i], 0, 1)) != 0)
        {
            l.obstruct_coordinate(at(w, i));
            g.open[i] = false;
        }
    const auto k = static_cast<int>(vx_concretize(vx_range("from", 0, static_cast<unsigned>(g.n)))), d = static_cast<int>(vx_concretize(vx_range("to", 0, 1)));
    if (k < g.n)
    {
        const int j = d == 0 ? k + 1 : k - w;
        if (j >= 0 && j < g.n && g.e[k][j])
        {
            l.obstruct_connection(at(w, k), at(w, j));
            g.e[k][j] = false;
        }
    }
    return g;
}
template <typename L>
void look_all(const L& l, const graph& g, int w, int s, int t)
{
    using P = layout_coordinate_path<L>;
    std::vector<int> lengths;
    g.all(s, t, 1u << s, 0, lengths);
    const auto all = enumerate_all_paths<P>(l, {at(w, s), at(w, t)});
    vx_check(all.size() == lengths.size(), "all paths are enumerated");
    for (std::size_t i = 0; i < all.size(); ++i)
    {
        vx_check(is_path(g, w, all[i], s, t), "enumerated paths are paths");
        for (std::size_t j = 0; j < i; ++j)
            vx_check(!(all[i] == all[j]), "no path is enumerated twice");
    }
    std::sort(lengths.begin(), lengths.end());
    const auto k    = static_cast<std::uint32_t>(VX_B(3, 5));
    const auto best = yen_k_shortest_paths<P>(l, {at(w, s), at(w, t)}, k);
    vx_check(best.size() == std::min<std::size_t>(k, lengths.size()), "k shortest paths are found if there are as many");
    for (std::size_t i = 0; i < best.size(); ++i)
    {
        vx_check(is_path(g, w, best[i], s, t), "shortest paths are paths");
        vx_check(static_cast<int>(best[i].size()) == lengths[i] + 1, "shortest paths are the shortest ones, in order");
        for (std::size_t j = 0; j < i; ++j)
            vx_check(!(best[i] == best[j]), "no shortest path is listed twice");
    }
}
template <bool Deep, typename L>
void look(const L& l, const graph& g, int w, int s, int t)
{
    using P       = layout_coordinate_path<L>;
    const auto p  = a_star<P>(l, {at(w, s), at(w, t)});
    const int  d  = g.shortest(s, t);
    vx_check(p.empty() == (d < 0), "a path is found exactly when there is one");
    vx_check(p.empty() || is_path(g, w, p, s, t), "a path leads from the source to the target over free tiles and connections");
    vx_check(p.empty() || static_cast<int>(p.size()) == d + 1, "the path is a shortest one");
    vx_check((a_star_distance<L, std::uint64_t>(l, at(w, s), at(w, t))) == (d < 0 ? std::numeric_limits<std::uint64_t>::max() : static_cast<std::uint64_t>(d)), "the distance is the length of a shortest path");
    if constexpr (Deep)
        look_all(l, g, w, s, t);
}
}  // namespace
VX_ENTRY(pf_grid)
{
    // shortest paths among blocked tiles
    const int                w = 3, h = 3;
    obstruction_layout<CART> l{CART{UC{w - 1, h - 1, 0}}};
    const auto               g = grid(l, w, h);
    const int s = static_cast<int>(vx_part());
    const int t = static_cast<int>(vx_concretize(vx_range("t", 0, w * h - 1)));
    look<false>(l, g, w, s, t);
}
VX_ENTRY(pf_all)
{
    // all paths and the k shortest ones
    const int                w = static_cast<int>(VX_B(2, 3)), h = 3;
    obstruction_layout<CART> l{CART{UC{w - 1, h - 1, 0}}};
    const auto               g = grid(l, w, h);
    const int s = static_cast<int>(vx_concretize(vx_range("s", 0, 1))), t = static_cast<int>(vx_concretize(vx_range("t", 0, w * h - 1)));
    look<true>(l, g, w, s, t);
    // searching does not change the layout
    for (int i = 0; i < g.n; ++i)
    {
        vx_check(l.is_obstructed_coordinate(at(w, i)) == !g.open[i], "searching leaves the obstructed tiles alone");
        for (int j = 0; j < g.n; ++j)
        {
            const int dx = i % w - j % w, dy = i / w - j / w;
            if (dx * dx + dy * dy == 1)
                vx_check(l.is_obstructed_connection(at(w, i), at(w, j)) == !g.e[i][j], "searching leaves the obstructed connections alone");
        }
    }
}
VX_ENTRY(pf_clocked)
{
    // with clocking, paths follow the phases
    const int                w = 3, h = 2;
    CLK                      c{UC{w - 1, h - 1, 0}, open_clocking<CLK>(num_clks::FOUR)};
    int                      clk[6];
    for (int i = 0; i < w * h; ++i)
    {
        clk[i] = static_cast<int>(vx_concretize(vx_range(BN[i], 0, 3)));
        c.assign_clock_number(at(w, i), static_cast<std::uint8_t>(clk[i]));
    }
    obstruction_layout<CLK> l{c};
    graph                   g;
    g.n = w * h;
    for (int i = 0; i < g.n; ++i)
    {
        g.open[i] = true;
        for (int j = 0; j < g.n; ++j)
        {
            const int dx = i % w - j % w, dy = i / w - j / w;
            g.e[i][j] = dx * dx + dy * dy == 1 && (clk[i] + 1) % 4 == clk[j];
        }
    }
    const int s = static_cast<int>(vx_concretize(vx_range("s", 0, 2))), t = static_cast<int>(vx_concretize(vx_range("t", 0, w * h - 1)));
    look<true>(l, g, w, s, t);
}
VX_ENTRY(pf_schemes)
{
    // on the named schemes
    const int w = 4, h = 3;
    CLK       c{UC{w - 1, h - 1, 0}};
    const char* names[8] = {"2DDWAVE", "USE", "RES", "ESR", "ROW", "COLUMNAR", "CFE", "BANCS"};
    const auto  k        = vx_concretize(vx_range("scheme", 0, 7));
    c.replace_clocking_scheme(*get_clocking_scheme<CLK>(names[k]));
    const int phases = c.num_clocks();
    obstruction_layout<CLK> l{c};
    graph                   g;
    g.n = w * h;
    for (int i = 0; i < g.n; ++i)
    {
        g.open[i] = true;
        for (int j = 0; j < g.n; ++j)
        {
            const int dx = i % w - j % w, dy = i / w - j / w;
            g.e[i][j] = dx * dx + dy * dy == 1 && (c.get_clock_number(at(w, i)) + 1) % phases == c.get_clock_number(at(w, j));
        }
    }
    for (int q = 0; q < static_cast<int>(VX_B(1, 2)); ++q)
    {
        const int i = static_cast<int>(vx_concretize(vx_range(q == 0 ? "block0" : "block1", 0, static_cast<unsigned>(g.n - 1))));
        l.obstruct_coordinate(at(w, i));
        g.open[i] = false;
    }
    const int s = static_cast<int>(vx_concretize(vx_range("s", 0, static_cast<unsigned>(g.n - 1)))), t = static_cast<int>(vx_concretize(vx_range("t", 0, static_cast<unsigned>(g.n - 1))));
    look<true>(l, g, w, s, t);
}
VX_ENTRY(pf_distances)
{
    const CART l{UC{9, 9, 1}};
    const auto lim = static_cast<std::uint64_t>(VX_B(1023, 65535));
    const auto x0 = vx_range("x0", 0, lim), y0 = vx_range("y0", 0, lim), x1 = vx_range("x1", 0, lim), y1 = vx_range("y1", 0, lim);
    const auto mk = [](std::uint64_t x, std::uint64_t y, const char* n) { return UC{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), static_cast<std::int32_t>(vx_range(n, 0, 1))}; };
    const UC   a = mk(x0, y0, "z0"), b = mk(x1, y1, "z1");
    const auto dx = x0 > x1 ? x0 - x1 : x1 - x0, dy = y0 > y1 ? y0 - y1 : y1 - y0;
    vx_check(manhattan_distance<CART>(l, a, b) == dx + dy, "the Manhattan distance");
    vx_check(chebyshev_distance<CART>(l, a, b) == (dx > dy ? dx : dy), "the Chebyshev distance");
    vx_check(twoddwave_distance<CART>(l, a, b) == ((x0 <= x1 && y0 <= y1) ? dx + dy : std::uint64_t{0xffffffffu}), "the distance on 2DDWave");
    vx_check(manhattan_distance_functor<CART>{}(l, a, b) == dx + dy && chebyshev_distance_functor<CART>{}(l, a, b) == (dx > dy ? dx : dy), "functors compute the distance they are named after");
    vx_check(twoddwave_distance_functor<CART>{}(l, a, b) == twoddwave_distance<CART>(l, a, b), "functors compute the distance they are named after");
    vx_check(unit_cost<CART>(a, b) == 1 && unit_cost_functor<CART>{}(a, b) == 1, "unit cost");
    using C = cartesian_layout<cube::coord_t>;
    const C    m{cube::coord_t{9, 9, 1}};
    const cube::coord_t p{static_cast<std::int32_t>(vx_irange("px", -100000, 100000)), static_cast<std::int32_t>(vx_irange("py", -100000, 100000)), 0}, q{static_cast<std::int32_t>(vx_irange("qx", -100000, 100000)), static_cast<std::int32_t>(vx_irange("qy", -100000, 100000)), 0};
    const std::int64_t ex = std::int64_t{p.x} - q.x, ey = std::int64_t{p.y} - q.y;
    vx_check(manhattan_distance<C>(m, p, q) == static_cast<std::uint64_t>((ex < 0 ? -ex : ex) + (ey < 0 ? -ey : ey)), "the Manhattan distance between any coordinates");
}
VX_ENTRY(pf_squared)
{
    const CART l{UC{9, 9, 1}};
    const auto lim = static_cast<std::uint64_t>(VX_B(7, 31));
    const auto x0 = vx_range("x0", 0, lim), y0 = vx_range("y0", 0, lim);
    const auto x1 = vx_concretize(vx_range("x1", 0, 3)), y1 = vx_concretize(vx_range("y1", 0, 2));
    const auto mk = [](std::uint64_t x, std::uint64_t y) { return UC{static_cast<std::int32_t>(x), static_cast<std::int32_t>(y), 0}; };
    const auto dx = x0 > x1 ? x0 - x1 : x1 - x0, dy = y0 > y1 ? y0 - y1 : y1 - y0;
    vx_check(squared_euclidean_distance<CART>(l, mk(x0, y0), mk(x1, y1)) == dx * dx + dy * dy, "the squared Euclidean distance");
    vx_check(squared_euclidean_distance<CART>(l, mk(x1, y1), mk(x0, y0)) == dx * dx + dy * dy, "distances are symmetric");
}
VX_ENTRY(pf_maps)
{
    // distance maps and caches return what the distance function does
    const int  w = static_cast<int>(vx_concretize(vx_range("w", 1, 3))), h = static_cast<int>(vx_concretize(vx_range("h", 1, 3)));
    const CART l{UC{w - 1, h - 1, 0}};
    const twoddwave_distance_functor<CART> f{};
    const auto dm = initialize_distance_map<CART, std::uint64_t>(l, f);
    const auto sm = initialize_sparse_distance_map<CART, std::uint64_t>(l, f);
    const distance_map_functor<CART, std::uint64_t>         df{dm};
    const sparse_distance_map_functor<CART, std::uint64_t>  sf{sm};
    const smart_distance_cache_functor<CART, std::uint64_t> cf{l, &twoddwave_distance<CART, std::uint64_t>};
    const int  s = static_cast<int>(vx_concretize(vx_range("s", 0, static_cast<unsigned>(w * h - 1)))), t = static_cast<int>(vx_concretize(vx_range("t", 0, static_cast<unsigned>(w * h - 1))));
    const auto d = twoddwave_distance<CART>(l, at(w, s), at(w, t));
    vx_check(df(l, at(w, s), at(w, t)) == d && sf(l, at(w, s), at(w, t)) == d, "distance maps hold the distances");
    vx_check(cf(l, at(w, s), at(w, t)) == d && cf(l, at(w, t), at(w, s)) == twoddwave_distance<CART>(l, at(w, t), at(w, s)) && cf(l, at(w, s), at(w, t)) == d, "caches return the distances");
    vx_check(dm.size() == static_cast<std::size_t>(w * h) && sm.size() == static_cast<std::size_t>(w * h * w * h), "maps cover all pairs");
}
VX_ENTRY(pf_cross)
{
    // wires can be crossed where both of their ends are connected and the crossing layer is free
    constexpr int w = 4, h = 3;
    using OG        = obstruction_layout<GATE>;
    using P         = layout_coordinate_path<OG>;
    static const struct
    {
        int n, tile[2][5];  // wires from an input to an output, the second one may lack its end
    } C[6]{{0, {}}, {1, {{1, 5, 9, -1, -1}}}, {2, {{1, 5, 9, -1, -1}, {2, 6, 10, -1, -1}}}, {1, {{1, 5, 6, 10, -1}}}, {1, {{4, 5, 6, 7, -1}}}, {2, {{1, 5, 9, -1, -1}, {2, 6, -1, -1, -1}}}};
    GATE        g{UC{w - 1, h - 1, 1}, twoddwave_clocking<GATE>()};
    const auto& c = C[vx_concretize(vx_range("wires", 0, 5))];
    int         pre[12], next[12];
    bool        full[12]{}, inner[12]{};
    for (int i = 0; i < 12; ++i)
        pre[i] = next[i] = -1;
    for (int k = 0; k < c.n; ++k)
    {
        typename GATE::signal s{};
        for (int i = 0; i < 5 && c.tile[k][i] >= 0; ++i)
        {
            const int  t = c.tile[k][i];
            const auto u = at(w, t);
            const bool e = i == 4 || c.tile[k][i + 1] < 0;
            full[t]      = true;
            if (i == 0)
                s = g.create_pi("a", u);
            else if (e && !(c.n == 2 && c.tile[1][2] < 0 && k == 1))
                g.create_po(s, "f", u);
            else
            {
                s        = g.create_buf(s, u);
                inner[t] = true;
            }
            if (i > 0)
            {
                pre[t]                  = c.tile[k][i - 1];
                next[c.tile[k][i - 1]] = t;
            }
        }
    }
    OG l{g};
    // one tile of the crossing layer and one more of the ground layer may be taken
    const auto above = static_cast<int>(vx_concretize(vx_range("above", 0, 3))), block = static_cast<int>(vx_concretize(vx_range("block", 0, 3)));
    const int  A[4]{-1, 5, 6, 9}, B[4]{-1, 6, 4, 3};
    if (A[above] >= 0)
        l.obstruct_coordinate(UC{A[above] % w, A[above] / w, 1});
    if (B[block] >= 0)
    {
        l.obstruct_coordinate(at(w, B[block]));
        full[B[block]] = true;
    }
    const bool cross = vx_concretize(vx_range("cross", 0, 1)) != 0;
    const int  S[4]{0, 4, 1, 5};
    const int  s = S[vx_concretize(vx_range("s", 0, VX_B(2, 3)))], t = static_cast<int>(vx_concretize(vx_range("t", 0, 11)));
    const auto over = [&](int j)
    {
        const bool wire = inner[j] && pre[j] >= 0 && next[j] >= 0 && !(A[above] == j);
        return cross && wire;
    };
    // the target may be in the crossing layer, above a taken tile; crossings may then lead along its wire
    const bool up = cross && full[t] && t != s && vx_concretize(vx_range("up", 0, 1)) != 0;
    const auto goal = up ? UC{t % w, t / w, 1} : at(w, t);
    // a path steps onto free tiles, over wires, or to its target, but not along the connections of others
    graph r;
    r.n = w * h;
    for (int i = 0; i < r.n; ++i)
    {
        r.open[i] = true;
        for (int j = 0; j < r.n; ++j)
            r.e[i][j] = (j == i + w || (j == i + 1 && j % w != 0)) && (pre[j] != i || (up && j == t && i != s)) && (j == t || !full[j] || over(j));
    }
    const auto legal = [&](const P& p)
    {
        bool ok   = !p.empty() && p.source() == at(w, s) && p.target() == goal;
        int  prev = -1;
        for (const auto& x : p)
        {
            const int i = x.y * w + x.x;
            ok &= prev < 0 || (r.e[prev][i] && (x.z == 1) == (i == t ? up : full[i] && i != s));
            prev = i;
        }
        return ok;
    };
    a_star_params q{};
    q.crossings  = cross;
    const auto p = a_star<P>(l, {at(w, s), goal}, manhattan_distance_functor<OG, std::uint64_t>(), unit_cost_functor<OG, std::uint8_t>(), q);
    const int  d = r.shortest(s, t);
    vx_check(p.empty() == (d < 0), "a path that may cross wires is found exactly when there is one");
    vx_check(p.empty() || legal(p), "paths change to the crossing layer at wires only");
    vx_check(p.empty() || static_cast<int>(p.size()) == d + 1, "the path is a shortest one");
    if (up)
        return;
    std::vector<int> lengths;
    r.all(s, t, 1u << s, 0, lengths);
    enumerate_all_paths_params eq{};
    eq.crossings   = cross;
    const auto all = enumerate_all_paths<P>(l, {at(w, s), at(w, t)}, eq);
    vx_check(all.size() == lengths.size(), "all paths are enumerated");
    bool ok = true, once = true;
    for (std::size_t i = 0; i < all.size(); ++i)
    {
        ok &= legal(all[i]);
        for (std::size_t j = 0; j < i; ++j)
            once &= !(all[i] == all[j]);
    }
    vx_check(ok, "enumerated paths change to the crossing layer at wires only");
    vx_check(once, "no path is enumerated twice");
    const auto                  k = static_cast<std::uint32_t>(3);
    yen_k_shortest_paths_params yq{};
    yq.astar_params.crossings = cross;
    const auto best           = yen_k_shortest_paths<P>(l, {at(w, s), at(w, t)}, k, yq);
    std::sort(lengths.begin(), lengths.end());
    bool len = best.size() == std::min<std::size_t>(k, lengths.size());
    ok       = true;
    for (std::size_t i = 0; i < best.size(); ++i)
    {
        ok &= legal(best[i]);
        len &= i < lengths.size() && static_cast<int>(best[i].size()) == lengths[i] + 1;
    }
    vx_check(ok, "shortest paths change to the crossing layer at wires only");
    vx_check(len, "shortest paths are the shortest ones, in order");
}
