// Determination of clock numbers.
#include "nets_gen.h"

#include <fiction/algorithms/physical_design/determine_clocking.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <array>
#include <utility>
#include <vector>

using namespace fiction;
using namespace nets;

namespace
{
using CART = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using HEX  = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>>;
using T    = tile<CART>;

template <typename Lyt>
struct drawing
{
    Lyt                          l;
    std::vector<T>               tiles{};
    std::vector<std::pair<T, T>> flow{};  // from, to
    std::vector<std::uint64_t>   signals{};
    unsigned                     n;
    std::vector<std::uint8_t>    old{};

    void from(const std::vector<unsigned>& in, const T& t)
    {
        for (const auto i : in)
            flow.emplace_back(tiles[i], t);
        std::uint64_t s = 0;
        if (in.empty())
            s = l.create_pi("i" + std::to_string(tiles.size()), t);
        else if (in.size() == 1)
            s = l.create_buf(signals[in[0]], t);
        else
            s = l.create_and(signals[in[0]], signals[in[1]], t);
        signals.push_back(s);
        tiles.push_back(t);
    }
    // a valid assignment exists: distances agree modulo the number of phases
    bool clockable() const
    {
        const auto                    k = tiles.size();
        std::vector<int>              d(k, -1);
        const auto                    at = [&](const T& t) { return static_cast<std::size_t>(std::find(tiles.begin(), tiles.end(), t) - tiles.begin()); };
        for (std::size_t r = 0; r < k; ++r)
        {
            if (d[r] >= 0)
                continue;
            d[r] = 0;
            for (std::size_t round = 0; round < k; ++round)
            {
                const auto join = [&](std::size_t a, std::size_t b, int by)
                {
                    if (d[a] >= 0 && d[b] < 0)
                        d[b] = (d[a] + by) % static_cast<int>(n);
                    if (d[b] >= 0 && d[a] < 0)
                        d[a] = (d[b] + static_cast<int>(n) - by) % static_cast<int>(n);
                };
                for (const auto& [a, b] : flow)
                    join(at(a), at(b), 1);
                for (const auto& t : tiles)
                    if (t.z == 1)
                        join(at(t), at(T{t.x, t.y, 0}), 0);
            }
        }
        for (const auto& [a, b] : flow)
            if ((d[at(a)] + 1) % static_cast<int>(n) != d[at(b)])
                return false;
        for (const auto& t : tiles)
            if (t.z == 1 && d[at(t)] != d[at(T{t.x, t.y, 0})])
                return false;
        return true;
    }
    void check(const bool all_engines = false)
    {
        // earlier clock numbers do not matter
        for (const auto& t : tiles)
            old.push_back(l.get_clock_number(t));
        determine_clocking_params ps{};
        const bill::solvers       engines[] = {bill::solvers::bsat2, bill::solvers::ghack, bill::solvers::glucose_41, bill::solvers::maple, bill::solvers::bmcg};
        ps.sat_engine                       = engines[all_engines ? pick("solver", 0, 4) : 0];
        const bool r = determine_clocking(l, ps);
        vx_check(r == clockable(), "clock numbers are found exactly if there are any");
        bool phases = true, flows = true, same = true, kept = true;
        for (std::size_t i = 0; i < tiles.size(); ++i)
        {
            phases = phases && l.get_clock_number(tiles[i]) < n;
            kept   = kept && l.get_clock_number(tiles[i]) == old[i];
            if (tiles[i].z == 1)
                same = same && l.get_clock_number(tiles[i]) == l.get_clock_number(T{tiles[i].x, tiles[i].y, 0});
        }
        for (const auto& [a, b] : flow)
            flows = flows && l.get_clock_number(b) == (l.get_clock_number(a) + 1) % n;
        vx_check(!r || (phases && flows), "signals run through successive clock zones");
        vx_check(!r || same, "crossing wires share their clock zone");
        vx_check(r || kept, "clock numbers remain if there are none");
        if (r)
            vx_reach("clocked");
        else
            vx_reach("not clockable");
    }
};
template <typename Lyt>
drawing<Lyt> draw(const unsigned w, const unsigned h, bool three)
{
    const unsigned n = three ? 3 : 4;
    return {Lyt{{w - 1, h - 1, 1}, open_clocking<Lyt>(three ? num_clks::THREE : num_clks::FOUR)}, {}, {}, {}, n};
}
// every assignment that satisfies the constraints may be returned
void any_model()
{
    bill::first_value = []() { return vx_bool("model"); };
}
template <typename Lyt>
void tree_case(const unsigned nodes, const unsigned w, const unsigned h)
{
    any_model();
    auto                  d = draw<Lyt>(w, h, vx_bool("three"));
    std::vector<unsigned> fans;
    unsigned              joins = 0;
    for (unsigned i = 0; i < nodes; ++i)
    {
        // a tile for the next node and those adjacent to it that feed it
        const auto p = pick(nm("tile", i), 0, w * h - 1);
        const T    t{p % w, p / w};
        bool       free = true;
        for (const auto& u : d.tiles)
            free = free && u != t;
        vx_assume(free);
        if (i == 0)
            vx_assume(p == 0);
        const auto            m = pick(nm("in", i), 0, (1u << i) - 1);
        std::vector<unsigned> in;
        for (unsigned k = 0; k < i; ++k)
            if ((m >> k) & 1u)
            {
                vx_assume(d.l.is_adjacent_of(t, d.tiles[k]));
                in.push_back(k);
                ++fans[k];
                vx_assume(fans[k] <= 2);
            }
        vx_assume(in.size() <= 2);
        joins += in.size() == 2;
        fans.push_back(0);
        d.from(in, t);
        // most shapes without joins are alike
        vx_assume(i + 1 < nodes || joins > 0 || pick("chain", 0, 3) == 0);
    }
    if (vx_bool("stale"))
        for (const auto& t : d.tiles)
            d.l.assign_clock_number(t, static_cast<std::uint8_t>((t.x + t.y) % d.n));
    d.check();
}
}  // namespace

VX_ENTRY(dc_tree)
{
    tree_case<CART>(VX_B(4u, 5u), 2, VX_B(2u, 3u));
}
VX_ENTRY(dc_hex)
{
    tree_case<HEX>(VX_B(4u, 5u), 2, VX_B(2u, 3u));
}
VX_ENTRY(dc_join)
{
    // two paths of any lengths from one or two inputs join
    any_model();
    auto       d  = draw<CART>(6, 2, vx_bool("three"));
    const auto a  = pick("above", 0, 3), b = pick("below", 0, 3);
    const bool one = vx_bool("one");
    // row 0 and row 1; both end at the tile (x, 0)
    const T join{4, 0};
    if (one)
    {
        // fan out at (0, 0), detour through row 1
        d.from({}, T{0, 0});
        d.from({0}, T{1, 0});
        unsigned up = 1, down = 1;
        for (unsigned x = 2; x < 4; ++x)
        {
            d.from({up}, T{x, 0});
            up = static_cast<unsigned>(d.tiles.size()) - 1;
        }
        for (unsigned x = 1; x < 5; ++x)
        {
            d.from({down}, T{x, 1});
            down = static_cast<unsigned>(d.tiles.size()) - 1;
        }
        d.from({up, down}, join);
    }
    else
    {
        unsigned up = 0, down = 0;
        d.from({}, T{3 - a, 0});
        for (unsigned x = 4 - a; x < 4; ++x)
        {
            d.from({up}, T{x, 0});
            up = static_cast<unsigned>(d.tiles.size()) - 1;
        }
        d.from({}, T{4 - b, 1});
        down = static_cast<unsigned>(d.tiles.size()) - 1;
        for (unsigned x = 5 - b; x < 5; ++x)
        {
            d.from({down}, T{x, 1});
            down = static_cast<unsigned>(d.tiles.size()) - 1;
        }
        d.from({up, down}, join);
    }
    d.check();
}
VX_ENTRY(dc_cross)
{
    // wires cross and may meet later
    any_model();
    auto       d = draw<CART>(4, 3, vx_bool("three"));
    const auto a = pick("first", 0, 1);
    d.from({}, T{1, 0});  // 0: down column 1
    if (a)
    {
        d.from({}, T{0, 0});  // 1
        d.from({1}, T{0, 1}); // 2
    }
    else
        d.from({}, T{0, 1});  // 1
    const unsigned left = a ? 2 : 1;
    const bool     over = vx_bool("over");
    d.from({0}, over ? T{1, 1, 1} : T{1, 1});
    const auto c0 = static_cast<unsigned>(d.tiles.size()) - 1;
    d.from({left}, over ? T{1, 1} : T{1, 1, 1});
    const auto c1 = c0 + 1;
    d.from({c0}, T{1, 2});
    d.from({c1}, T{2, 1});
    const auto e0 = c1 + 1, e1 = c1 + 2;
    const auto m  = pick("meet", 0, 2);
    if (m == 1)
        d.from({e0, e1}, T{2, 2});
    if (m == 2)
    {
        d.from({e1}, T{3, 1});
        d.from({e1 + 1}, T{3, 2});
        d.from({e0, e1 + 2}, T{2, 2});
    }
    d.check(true);
}
VX_ENTRY(dc_empty)
{
    CART l{{2, 2}, open_clocking<CART>(num_clks::FOUR)};
    vx_check(determine_clocking(l), "empty layouts are clocked");
    vx_reach("empty");
}
