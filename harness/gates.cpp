// SiDB gates: pairs and wires of dots, input patterns, and whether a gate computes its function.
#include "charge_model.h"
#include <fiction/algorithms/iter/bdl_input_iterator.hpp>
#include <fiction/algorithms/simulation/sidb/calculate_energy_and_state_type.hpp>
#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_pairs.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_wires.hpp>
#include <fiction/algorithms/simulation/sidb/is_operational.hpp>
#include <fiction/algorithms/simulation/sidb/verify_logic_match.hpp>
#include <kitty/dynamic_truth_table.hpp>
namespace
{
using ct = sidb_technology::cell_type;
using TT = kitty::dynamic_truth_table;
using BP = bdl_pair<SC>;
using BW = bdl_wire<L>;
const ct KINDS[3]{ct::NORMAL, ct::INPUT, ct::OUTPUT};
double   nm(const SC& a, const SC& b)
{
    return model::dist(a, b);
}
SC at(int x, int y)
{
    return SC{x, y, 0};
}
// a wire of pairs in one of four directions, from the input on
struct wire
{
    int             dir;  // 0 south, 1 north, 2 east, 3 west
    std::vector<BP> pairs;  // from the input to the end
};
wire straight(int dir, int x, int y, int n)
{
    wire w{dir, {}};
    for (int i = 0; i < n; ++i)
        switch (dir)
        {
            case 0: w.pairs.push_back(BP{ct::NORMAL, at(x, y + 3 * i), at(x, y + 3 * i + 1)}); break;
            case 1: w.pairs.push_back(BP{ct::NORMAL, at(x, y - 3 * i), at(x, y - 3 * i + 1)}); break;
            case 2: w.pairs.push_back(BP{ct::NORMAL, at(x + 6 * i, y), at(x + 6 * i + 2, y)}); break;
            default: w.pairs.push_back(BP{ct::NORMAL, at(x - 6 * i, y), at(x - 6 * i + 2, y)}); break;
        }
    return w;
}
void put(L& l, const wire& w)
{
    for (const auto& p : w.pairs)
    {
        l.assign_cell_type(p.upper, p.type);
        l.assign_cell_type(p.lower, p.type);
    }
}
constexpr port_direction::cardinal DIRS[4]{port_direction::SOUTH, port_direction::NORTH, port_direction::EAST, port_direction::WEST};
// the dot of a pair that is closer to where the wire leads
SC ahead(const wire& w, const BP& p)
{
    return w.dir == 0 || w.dir == 2 ? p.lower : p.upper;
}
SC behind(const wire& w, const BP& p)
{
    return w.dir == 0 || w.dir == 2 ? p.upper : p.lower;
}
}  // namespace
VX_ENTRY(bd_pairs)
{
    // dots of one type pair up, the closest ones first
    const int       P[7][3] = {{0, 0, 0}, {2, 0, 0}, {0, 1, 0}, {2, 1, 1}, {5, 1, 0}, {3, 2, 0}, {8, 1, 1}};
    std::vector<SC> s;
    std::vector<ct> t;
    L               l{};
    for (const auto& p : P)
    {
        const auto k = vx_concretize(vx_range("dot", 0, &p == &P[6] ? VX_B(0, 3) : &p >= &P[4] ? VX_B(1, 3) : 3));
        if (k == 0)
            continue;
        s.push_back(SC{p[0], p[1], p[2]});
        t.push_back(KINDS[k - 1]);
        l.assign_cell_type(s.back(), t.back());
    }
    detect_bdl_pairs_params q{};
    if (vx_concretize(vx_range("wide", 0, 1)) != 0)
    {
        q.minimum_distance = 0.0;
        q.maximum_distance = 2.5;
    }
    std::vector<int> mate(s.size(), -1);
    const auto       find = [&](const SC& c)
    {
        for (unsigned i = 0; i < s.size(); ++i)
            if (s[i] == c)
                return static_cast<int>(i);
        return -1;
    };
    for (const auto k : KINDS)
    {
        const auto r = detect_bdl_pairs(l, std::optional<ct>{k}, q);
        for (unsigned i = 0; i < r.size(); ++i)
        {
            const int u = find(r[i].upper), w = find(r[i].lower);
            vx_check(u >= 0 && w >= 0 && u != w, "pairs consist of dots");
            vx_check(t[static_cast<unsigned>(u)] == k && t[static_cast<unsigned>(w)] == k && r[i].type == k, "pairs have the type asked for");
            vx_check(r[i].upper < r[i].lower, "upper dot comes first");
            vx_check(mate[static_cast<unsigned>(u)] < 0 && mate[static_cast<unsigned>(w)] < 0, "no dot is in two pairs");
            mate[static_cast<unsigned>(u)] = w;
            mate[static_cast<unsigned>(w)] = u;
            const double d                 = nm(r[i].upper, r[i].lower);
            vx_check(d >= q.minimum_distance && d <= q.maximum_distance, "pairs are neither too close nor too far apart");
            vx_check(i == 0 || r[i - 1] < r[i], "pairs are sorted");
        }
    }
    for (unsigned i = 0; i < s.size(); ++i)
        for (unsigned j = 0; j < i; ++j)
        {
            const double d = nm(s[i], s[j]);
            if (t[i] != t[j] || d < q.minimum_distance || d > q.maximum_distance || mate[i] == static_cast<int>(j))
                continue;
            const bool i_busy = mate[i] >= 0 && nm(s[i], s[static_cast<unsigned>(mate[i])]) <= d + 1e-9;
            const bool j_busy = mate[j] >= 0 && nm(s[j], s[static_cast<unsigned>(mate[j])]) <= d + 1e-9;
            vx_check(i_busy || j_busy, "dots stay alone or in a wider pair only if the other one has a closer partner");
        }
    const auto all = detect_bdl_pairs(l, std::optional<ct>{}, q);
    unsigned   n   = 0;
    for (const auto m : mate)
        n += m >= 0;
    vx_check(all.size() * 2 == n, "without a type, the pairs of all types");
    for (const auto& p : all)
        vx_check(mate[static_cast<unsigned>(find(p.upper))] == find(p.lower) && t[static_cast<unsigned>(find(p.upper))] == p.type, "the same pairs as for each type");
}
VX_ENTRY(bd_wires)
{
    // straight wires are found with all their pairs, ends and direction
    L                 l{};
    std::vector<wire> ws;
    const auto        n = vx_concretize(vx_range("wires", 1, 2));
    for (unsigned i = 0; i < n; ++i)
    {
        const auto dir  = static_cast<int>(vx_concretize(vx_range("dir", 0, 3)));
        const auto len  = 2 + static_cast<int>(vx_concretize(vx_range("length", 0, VX_B(1, 2))));
        const auto type = vx_concretize(vx_range("ends", 0, 3));
        wire       w    = straight(dir, i == 0 ? 20 : 60, 20 + static_cast<int>(vx_concretize(vx_range("shift", 0, 1))) * 4, len);
        if (type & 1u)
            w.pairs.front().type = ct::INPUT;
        if (type & 2u)
            w.pairs.back().type = ct::OUTPUT;
        put(l, w);
        ws.push_back(w);
    }
    const auto r = detect_bdl_wires(l);
    vx_check(r.size() == n, "as many wires as there are");
    for (const auto sel : {bdl_wire_selection::ALL, bdl_wire_selection::INPUT, bdl_wire_selection::OUTPUT})
    {
        if (sel != bdl_wire_selection::ALL)  // input and output wires of a layout have the same length
            vx_assume(n == 1 || ws[0].pairs.size() == ws[1].pairs.size());
        const auto f    = detect_bdl_wires(l, detect_bdl_wires_params{}, sel);
        unsigned   want = 0;
        for (const auto& w : ws)
        {
            const bool in = w.pairs.front().type == ct::INPUT, out = w.pairs.back().type == ct::OUTPUT;
            if (sel == bdl_wire_selection::INPUT && !in)
                continue;
            if (sel == bdl_wire_selection::OUTPUT && !out)
                continue;
            ++want;
            auto expect = w.pairs;
            if (sel == bdl_wire_selection::INPUT && out)
                expect.pop_back();
            if (sel == bdl_wire_selection::OUTPUT && in)
                expect.erase(expect.begin());
            std::sort(expect.begin(), expect.end());
            unsigned times = 0;
            for (const auto& x : f)
            {
                auto pairs = x.pairs;
                std::sort(pairs.begin(), pairs.end());
                if (pairs != expect)
                    continue;
                ++times;
                if (!in && !out)
                {
                    vx_check(x.port.dir == port_direction::NONE, "wires without inputs and outputs have no direction");
                    continue;
                }
                vx_check(x.port.dir == DIRS[w.dir], "direction from the input to the output");
                vx_check(x.first_bdl_pair.has_value() && *x.first_bdl_pair == w.pairs.front() && x.last_bdl_pair.has_value() && *x.last_bdl_pair == w.pairs.back(), "first and last pair");
            }
            vx_check(times == 1, "every wire is found once with all its pairs");
        }
        vx_check(f.size() == want, "no other wires");
    }
}
VX_ENTRY(bd_objects)
{
    // pairs are ordered by position; wires are values that keep their direction up to date
    const auto at2 = [](const char* a, const char* b) { const auto x = vx_range(a, 0, 31); const auto y = vx_range(b, 0, 31); return at(static_cast<int>(x), static_cast<int>(y)); };
    const auto u0 = at2("x0", "y0"), l0 = at2("x1", "y1"), u1 = at2("x2", "y2"), l1 = at2("x3", "y3");
    const BP   p{ct::NORMAL, u0, l0}, q{ct::NORMAL, u1, l1}, p2{ct::INPUT, u0, l0};
    const bool same = u0 == u1 && l0 == l1, less = u0 < u1 || (u0 == u1 && l0 < l1);
    vx_check((p == q) == same && (p < q) == less && (p <= q) == (less || same) && (p > q) == !(less || same) && (p >= q) == !less, "pairs of one type are ordered by their positions");
    vx_check(p.equal_ignore_type(q) == same && p.not_equal_ignore_type(q) == !same && p2.equal_ignore_type(p) && !(p2 == p), "pairs are compared with and without their types");
    vx_check(p.has_same_y_coordinate(q) == (u0.y == u1.y && l0.y == l1.y), "pairs on the same rows");
}
VX_ENTRY(bd_edit)
{
    const auto dir = static_cast<int>(vx_concretize(vx_range("dir", 0, 3)));
    const auto len = 2 + static_cast<int>(vx_concretize(vx_range("length", 0, VX_B(2, 3))));
    const auto type = vx_concretize(vx_range("ends", 0, 3));
    wire       w    = straight(dir, 30, 30, len);
    if (type & 1u)
        w.pairs.front().type = ct::INPUT;
    if (type & 2u)
        w.pairs.back().type = ct::OUTPUT;
    const auto is = [&](const BW& x, const std::vector<BP>& ps, const bool in, const bool out)
    {
        auto a = x.pairs, b = ps;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        vx_check(a == b, "a wire has the pairs it was given");
        vx_check(x.port.dir == ((in || out) && ps.size() > 1 ? DIRS[dir] : port_direction::NONE), "a wire leads from its input to its output");
        vx_check(x.find_bdl_pair_by_type(ct::INPUT).has_value() == in && x.find_bdl_pair_by_type(ct::OUTPUT).has_value() == out && (!in || *x.find_bdl_pair_by_type(ct::INPUT) == w.pairs.front()) && (!out || *x.find_bdl_pair_by_type(ct::OUTPUT) == w.pairs.back()), "ends of a wire are found by type");
        if ((in || out) && ps.size() > 1)
            vx_check(x.first_bdl_pair.has_value() && *x.first_bdl_pair == ps.front() && x.last_bdl_pair.has_value() && *x.last_bdl_pair == ps.back(), "first and last pair of the wire");
    };
    const bool in = (type & 1u) != 0, out = (type & 2u) != 0;
    BW         all{w.pairs}, one{};
    const auto from = static_cast<std::size_t>(vx_concretize(vx_range("from", 0, static_cast<unsigned>(len - 1))));
    for (std::size_t i = 0; i < w.pairs.size(); ++i)
        one.add_bdl_pair(w.pairs[(from + i) % w.pairs.size()]);
    is(all, w.pairs, in, out);
    is(one, w.pairs, in, out);
    const BW copy{one};
    BW       moved{std::move(one)}, assigned{}, taken{};
    assigned = copy;
    is(copy, w.pairs, in, out);
    is(moved, w.pairs, in, out);
    is(assigned, w.pairs, in, out);
    // without one of its ends it is shorter
    const bool front = vx_concretize(vx_range("front", 0, 1)) != 0;
    assigned.erase_bdl_pair(front ? w.pairs.front() : w.pairs.back());
    auto rest = w.pairs;
    rest.erase(front ? rest.begin() : rest.end() - 1);
    is(assigned, rest, in && !front, out && front);
    is(copy, w.pairs, in, out);
    taken = std::move(assigned);
    is(taken, rest, in && !front, out && front);
}
VX_ENTRY(bd_inputs)
{
    // each input pattern leaves exactly the perturbers that encode it
    L                 l{};
    std::vector<wire> ws;
    const auto        n   = vx_concretize(vx_range("wires", 1, VX_B(2, 3)));
    const auto        dir = static_cast<int>(vx_concretize(vx_range("dir", 0, 1)));
    for (unsigned i = 0; i < n; ++i)
    {
        wire w               = straight(dir, 20 * static_cast<int>(i), 20, 2 + static_cast<int>(vx_concretize(vx_range("length", 0, 0))));
        w.pairs.front().type = ct::INPUT;
        put(l, w);
        ws.push_back(w);
    }
    l.assign_cell_type(at(100, 5), ct::OUTPUT);
    bdl_input_iterator_params p{};
    const bool                absent = vx_concretize(vx_range("absence", 0, 1)) != 0;
    if (absent)
        p.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    bdl_input_iterator<L> it{l, p};
    vx_check(it.num_input_pairs() == n && it.get_current_input_index() == 0, "starts with the first pattern");
    const std::uint64_t top  = std::uint64_t{1} << n;
    std::uint64_t       here = 0;
    const auto          look = [&](const bdl_input_iterator<L>& i, std::uint64_t pattern)
    {
        const auto& x     = *i;
        unsigned    cells = 1;
        vx_check(i.get_current_input_index() == pattern && i == pattern && !(i != pattern) && i <= pattern && i >= pattern && !(i < pattern) && !(i > pattern) && i < pattern + 1, "position of the iterator");
        for (unsigned k = 0; k < n; ++k)
        {
            const auto& w   = ws[k];
            const bool  one = (pattern >> (n - 1 - k)) & 1u;
            vx_check(x.get_cell_type(ahead(w, w.pairs.front())) == (one ? ct::INPUT : ct::EMPTY), "a perturber near the wire encodes one");
            vx_check(x.get_cell_type(behind(w, w.pairs.front())) == (one || absent ? ct::EMPTY : ct::INPUT), "a distant or no perturber encodes zero");
            for (unsigned j = 1; j < w.pairs.size(); ++j)
            {
                vx_check(x.get_cell_type(w.pairs[j].upper) == ct::NORMAL && x.get_cell_type(w.pairs[j].lower) == ct::NORMAL, "other dots stay");
                cells += 2;
            }
            cells += one || !absent;
        }
        vx_check(x.num_cells() == cells, "no other dots");
    };
    look(it, 0);
    for (int step = 0; step < static_cast<int>(VX_B(2, 3)); ++step)
    {
        const auto to = vx_concretize(vx_range("to", 0, top - 1));
        const auto d  = static_cast<int>(to) - static_cast<int>(here);
        switch (vx_concretize(vx_range("how", 0, 7)))
        {
            case 0: it = to; break;
            case 1: it += d; break;
            case 2: it -= -d; break;
            case 3: it = it.get_current_input_index() + static_cast<std::uint64_t>(d); break;
            case 4:
                look(it + d, to);
                look(it, here);
                vx_check((it + d) - it == d && it - (it + d) == -d, "difference of iterators");
                it += d;
                break;
            case 5:
                look(it[d], to);
                it -= -d;
                break;
            case 6:
                vx_assume(d == 1);
                look(it++, here);
                break;
            default:
                vx_assume(d == -1);
                look(it--, here);
                break;
        }
        look(it, to);
        here = to;
    }
    vx_check(l.num_cells() == 4 * n + 1, "the layout is left alone");
    const auto all = generate_bdl_input_pattern_layouts(l, p);
    vx_check(all.size() == top, "a layout for every pattern");
    for (std::uint64_t k = 0; k < top; ++k)
    {
        it = k;
        bool eq = all[k].num_cells() == (*it).num_cells();
        (*it).foreach_cell([&](const auto& c) { eq &= all[k].get_cell_type(c) == (*it).get_cell_type(c); });
        vx_check(eq, "layouts in order of the patterns");
    }
}
namespace
{
// input, middle and output pair of a wire, diagonal or straight
struct gate
{
    L               l{};
    std::vector<BP> p;
    std::vector<SC> rest;
    // 0, 1: without another dot, 2: passes its input on, 3: inverts its input, with kinks
    explicit gate(int shape)
    {
        constexpr int S[4][3] = {{2, 6, 2}, {0, 0, 3}, {1, 4, 2}, {2, 4, 2}};
        const int     dx = S[shape][0], sx = S[shape][1], sy = S[shape][2];
        for (int i = 0; i < 3; ++i)
            p.push_back(BP{i == 0 ? ct::INPUT : i == 1 ? ct::NORMAL : ct::OUTPUT, at(sx * i, sy * i), at(sx * i + dx, sy * i + 1)});
        for (const auto& b : p)
        {
            l.assign_cell_type(b.upper, b.type);
            l.assign_cell_type(b.lower, b.type);
        }
        if (shape >= 2)
        {
            rest.push_back(shape == 2 ? at(13, 6) : at(15, 5));
            l.assign_cell_type(rest.back(), ct::NORMAL);
        }
    }
    std::vector<SC> dots(unsigned pattern) const
    {
        std::vector<SC> r{pattern != 0 ? p[0].lower : p[0].upper, p[1].upper, p[1].lower, p[2].upper, p[2].lower};
        r.insert(r.end(), rest.begin(), rest.end());
        return r;
    }
};
int q_of(const model& m, const SC& c)
{
    for (int i = 0; i < m.n; ++i)
        if (m.s[i] == c)
            return m.q[i];
    return 9;
}
bool encodes(const model& m, const BP& b, bool one)
{
    return q_of(m, b.upper) == (one ? 0 : -1) && q_of(m, b.lower) == (one ? -1 : 0);
}
TT function(unsigned f)
{
    TT t{1};
    for (unsigned k = 0; k < 2; ++k)
        if ((f >> k) & 1u)
            kitty::set_bit(t, k);
    return t;
}
}  // namespace
namespace
{
// states r against energies e and whether the states are accepted; without kinks, only the lower dot of an output is read
void known_or_right(const sidb_energy_and_state_type& r, const std::vector<double>& e, const std::vector<int>& ok, bool kinks)
{
    std::vector<unsigned> order(e.size());
    for (unsigned i = 0; i < e.size(); ++i)
        order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](unsigned a, unsigned b) { return e[a] < e[b] - 1e-7; });
    if (kinks)
    {
        // known finding: all distributions are listed as accepted, and those of an energy end with the first that is not
        std::vector<std::pair<double, bool>> l;
        double                               done = -1e9;
        for (const auto k : order)
        {
            if (std::abs(e[k] - done) < 1e-7)
                continue;
            l.emplace_back(e[k], true);
            if (ok[k] == 0)
            {
                l.emplace_back(e[k], false);
                done = e[k];
            }
        }
        bool differs = false;
        for (const auto o : ok)
            differs |= o == 0;
        bool same = differs && l.size() == r.size();
        for (unsigned i = 0; same && i < l.size(); ++i)
            same = std::abs(l[i].first - r[i].first) < 5e-7 && l[i].second == (r[i].second == state_type::ACCEPTED);
        vx_check(!same, "rejected states are listed as rejected only");
    }
    vx_check(r.size() == e.size(), "one state per distribution");
    for (unsigned k = 0; k < e.size(); ++k)
    {
        unsigned have = 0, should = 0;
        for (unsigned j = 0; j < e.size(); ++j)
            should += std::abs(e[j] - e[k]) < 1e-7 && ok[j] == ok[k];
        for (const auto& [x, t] : r)
            have += std::abs(x - e[k]) < 5e-7 && (t == state_type::ACCEPTED) == (ok[k] != 0);
        vx_check(have == should, "states are accepted when they encode the function");
    }
    for (unsigned k = 1; k < r.size(); ++k)
        vx_check(r[k - 1].first <= r[k].first, "in order of energy");
}
}  // namespace
VX_ENTRY(bd_match)
{
    // a distribution matches when outputs encode the function and, on demand, no pair of a wire contradicts
    const gate     g{static_cast<int>(vx_concretize(vx_range("shape", 0, 1)))};
    const unsigned pattern = static_cast<unsigned>(vx_concretize(vx_range("pattern", 0, 1)));
    const unsigned f       = static_cast<unsigned>(vx_concretize(vx_range("function", 0, 3)));
    const bool     kinks   = vx_concretize(vx_range("kinks", 0, 1)) != 0;
    const int      base    = 2 + static_cast<int>(vx_concretize(vx_range("base", 0, 1)));
    const auto     in      = detect_bdl_wires(g.l, detect_bdl_wires_params{}, bdl_wire_selection::INPUT);
    const auto     out     = detect_bdl_wires(g.l, detect_bdl_wires_params{}, bdl_wire_selection::OUTPUT);
    is_operational_params q{};
    q.simulation_parameters = sidb_simulation_parameters{static_cast<std::uint8_t>(base), -0.2};
    q.op_condition          = kinks ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    bdl_input_iterator<L> it{g.l};
    it = pattern;
    const sidb_simulation_parameters p{3, -0.2};
    CDS                              c{*it, p};
    model                            m{g.dots(pattern), p};
    for (int i = 0; i < m.n; ++i)
    {
        m.q[i] = m.s[i] == g.dots(pattern)[0] ? -1 : static_cast<int>(vx_concretize(vx_range("charge", 0, base == 2 ? 1 : 2))) - 1;
        c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
    }
    c.update_after_charge_change();
    const std::vector<TT> spec{function(f)};
    const bool            want = (f >> pattern) & 1u;
    bool                  ok   = encodes(m, g.p[2], want);
    if (kinks)
        ok &= encodes(m, g.p[1], pattern != 0) && encodes(m, g.p[1], want);
    bool positive = false;
    if (base == 2)
        positive = can_positive_charges_occur(c, q.simulation_parameters);
    vx_check((verify_logic_match(c, q, spec, pattern, in, out) == operational_status::OPERATIONAL) == (ok && !positive), "distributions match when they encode the function");
    // state types of all distributions with their energies
    std::vector<CDS> v{c};
    if (vx_concretize(vx_range("twice", 0, 1)) != 0)
        v.push_back(c);
    const auto ed = calculate_energy_distribution(v);
    const auto r  = kinks ? calculate_energy_and_state_type_with_kinks_rejected(ed, v, spec, pattern, in, out) :
                            calculate_energy_and_state_type_with_kinks_accepted(ed, v, detect_bdl_pairs(g.l, std::optional<ct>{ct::OUTPUT}), spec, pattern);
    const bool accepted = kinks ? ok : (q_of(m, g.p[2].lower) != 0) == want;
    known_or_right(r, std::vector<double>(v.size(), m.energy()), std::vector<int>(v.size(), accepted), kinks);
}
VX_ENTRY(bd_types)
{
    // several distributions: each is accepted or rejected on its own
    const gate            g{0};
    const unsigned        pattern = static_cast<unsigned>(vx_concretize(vx_range("pattern", 0, 1)));
    const unsigned        f       = static_cast<unsigned>(vx_concretize(vx_range("function", 1, 2)));
    const bool            kinks   = vx_concretize(vx_range("kinks", 0, 1)) != 0;
    const auto            in      = detect_bdl_wires(g.l, detect_bdl_wires_params{}, bdl_wire_selection::INPUT);
    const auto            out     = detect_bdl_wires(g.l, detect_bdl_wires_params{}, bdl_wire_selection::OUTPUT);
    bdl_input_iterator<L> it{g.l};
    it = pattern;
    const sidb_simulation_parameters p{2, -0.2};
    const auto                       n = vx_concretize(vx_range("count", 1, VX_B(2, 3)));
    std::vector<CDS>                 v;
    std::vector<double>              e;
    std::vector<int>                 ok;
    const bool                       want = (f >> pattern) & 1u;
    for (unsigned k = 0; k < n; ++k)
    {
        CDS   c{*it, p};
        model m{g.dots(pattern), p};
        auto  code = vx_concretize(vx_range("charges", 0, 15));
        for (int i = 0; i < m.n; ++i)
        {
            if (m.s[i] == g.dots(pattern)[0])
                m.q[i] = -1;
            else
            {
                m.q[i] = static_cast<int>(code % 2) - 1;
                code /= 2;
            }
            c.assign_charge_state(m.s[i], sidb_of(m.q[i]));
        }
        c.update_after_charge_change();
        c.charge_distribution_to_index_general();
        v.push_back(c);
        e.push_back(m.energy());
        ok.push_back(kinks ? encodes(m, g.p[2], want) && encodes(m, g.p[1], pattern != 0) && encodes(m, g.p[1], want) : (q_of(m, g.p[2].lower) != 0) == want);
    }
    const std::vector<TT> spec{function(f)};
    const auto            ed = calculate_energy_distribution(v);
    const auto            r  = kinks ? calculate_energy_and_state_type_with_kinks_rejected(ed, v, spec, pattern, in, out) :
                                       calculate_energy_and_state_type_with_kinks_accepted(ed, v, detect_bdl_pairs(g.l, std::optional<ct>{ct::OUTPUT}), spec, pattern);
    known_or_right(r, e, ok, kinks);
}
VX_ENTRY(bd_operational)
{
    // a gate is operational when the ground states for all inputs encode its function
    const auto     part = vx_part();
    const gate     g{static_cast<int>(part % 4)};
    const bool     kinks = (part / 4) % 2 != 0;
    const unsigned f     = static_cast<unsigned>(vx_concretize(vx_range("function", VX_B(1, 0), VX_B(2, 3))));
    const double   mu    = vx_f64("mu");
    vx_assume(mu >= VX_B(-0.36, -0.5) && mu <= VX_B(-0.12, 0.0));
    is_operational_params q{};
    q.simulation_parameters = sidb_simulation_parameters{2, mu};
    q.op_condition          = kinks ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    const std::vector<TT> spec{function(f)};
    bool                  right[2], stray[2], kink[2];
    for (unsigned pattern = 0; pattern < 2; ++pattern)
    {
        model        m{g.dots(pattern), q.simulation_parameters};
        const double none = 1e9;
        double       least = none, most = 0;
        for (int i = 0; i < m.n; ++i)
            m.q[i] = -1;
        for (int i = 0; i < m.n; ++i)
            most = std::min(most, m.internal(i));
        stray[pattern] = most < mu - 0.59;
        vx_assume(most < mu - 0.59 - model::band || most > mu - 0.59 + model::band);
        std::vector<int>    valid;
        std::vector<double> energies;
        for (int k = 0; k < 1 << m.n; ++k)
        {
            for (int i = 0; i < m.n; ++i)
                m.q[i] = ((k >> i) & 1) - 1;
            const bool no = m.surely_invalid(mu), yes = !no && m.surely_valid(mu, model::band);
            vx_assume(yes || no);  // stability within the tolerance is not judged
            if (!yes)
                continue;
            valid.push_back(k);
            energies.push_back(m.energy());
            least = std::min(least, energies.back());
        }
        bool       good = !valid.empty(), smooth = true;
        const bool want = (f >> pattern) & 1u;
        for (unsigned j = 0; j < valid.size(); ++j)
        {
            if (energies[j] > least + 1e-7)
                continue;
            for (int i = 0; i < m.n; ++i)
                m.q[i] = ((valid[j] >> i) & 1) - 1;
            good &= encodes(m, g.p[2], want);
            smooth &= encodes(m, g.p[1], pattern != 0) && encodes(m, g.p[1], want);
        }
        right[pattern] = good && !stray[pattern];
        kink[pattern]  = good && !smooth && !stray[pattern];
    }
    bool       ok[2] = {right[0] && !(kinks && kink[0]), right[1] && !(kinks && kink[1])};
    const auto r     = is_operational(g.l, spec, q);
    vx_check((r.first == operational_status::OPERATIONAL) == (ok[0] && ok[1]), "operational when every input pattern gives the right output");
    if (r.first == operational_status::OPERATIONAL)
        vx_reach("operational");
    vx_check(r.second <= 2, "at most one simulation per input pattern");
    const auto s = operational_input_patterns(g.l, spec, q);
    for (unsigned pattern = 0; pattern < 2; ++pattern)
        vx_check((s.count(pattern) != 0) == ok[pattern], "operational input patterns");
    if (VX_B(false, true))
    {
        const auto k = kink_induced_non_operational_input_patterns(g.l, spec, q);
        for (unsigned pattern = 0; pattern < 2; ++pattern)
            vx_check((k.count(pattern) != 0) == kink[pattern], "input patterns that fail because of kinks alone");
    }
}
namespace
{
// an input pair, a pair of its wire, one or two dots of the canvas and an output pair
struct canvas_gate
{
    L               l{};
    std::vector<BP> p;
    std::vector<SC> canvas;
    bool            one_wire;
    explicit canvas_gate(unsigned shape)
    {
        constexpr int S[6][6] = {{12, 5, 8, 6, 0, 2}, {12, 5, 10, 8, 1, 2}, {12, 5, 10, 6, 1, 2}, {12, 4, 10, 6, 1, 1}, {14, 5, 10, 4, 0, 2}, {12, 4, 12, 7, 0, 1}};
        const auto&   s       = S[shape];
        p        = {BP{ct::INPUT, at(0, 0), at(2, 1)}, BP{ct::NORMAL, at(6, 2), at(8, 3)}, BP{ct::OUTPUT, at(s[0], s[1]), at(s[0] + 2, s[1] + 1)}};
        one_wire = s[5] == 1;
        for (const auto& b : p)
        {
            l.assign_cell_type(b.upper, b.type);
            l.assign_cell_type(b.lower, b.type);
        }
        canvas.push_back(at(s[2], s[3]));
        if (s[4] == 1)
            canvas.push_back(at(s[2] + 3, s[3] + 1));
        for (const auto& c : canvas)
            l.assign_cell_type(c, ct::LOGIC);
    }
    std::vector<SC> dots(unsigned pattern) const
    {
        std::vector<SC> r{pattern != 0 ? p[0].lower : p[0].upper, p[1].upper, p[1].lower, p[2].upper, p[2].lower};
        r.insert(r.end(), canvas.begin(), canvas.end());
        return r;
    }
};
}  // namespace
VX_ENTRY(bd_filter)
{
    // filtering rejects exactly the gates whose wires cannot, or need not, carry the right values, and agrees with simulation
    const auto        part = vx_part();
    const canvas_gate g{static_cast<unsigned>(part % 6)};
    const unsigned    f  = static_cast<unsigned>(vx_concretize(vx_range("function", 0, 3)));
    const double      mu = vx_f64("mu");
    const bool narrow = VX_B(1, 0) != 0 && g.canvas.size() > 1;
    vx_assume(mu >= (narrow ? -0.26 : VX_B(-0.33, -0.4)) && mu <= (narrow ? -0.24 : VX_B(-0.14, -0.1)));
    is_operational_params q{};
    q.simulation_parameters = sidb_simulation_parameters{2, mu};
    q.op_condition          = is_operational_params::operational_condition::REJECT_KINKS;
    const std::vector<TT> spec{function(f)};
    bool                  right = true, pass = true, negative = true;
    for (unsigned pattern = 0; pattern < 2; ++pattern)
    {
        const bool want = (f >> pattern) & 1u;
        model      m{g.dots(pattern), q.simulation_parameters};
        double     least = 1e9, intended = 1e9, other = 1e9, most = 0;
        for (int i = 0; i < m.n; ++i)
            m.q[i] = -1;
        for (int i = 0; i < m.n; ++i)
            most = std::min(most, m.internal(i));
        vx_assume(most > mu - 0.59 + model::band);  // no positive charges
        std::vector<int>    valid;
        std::vector<double> energies;
        for (int k = 0; k < 1 << m.n; ++k)
        {
            for (int i = 0; i < m.n; ++i)
                m.q[i] = ((k >> i) & 1) - 1;
            const bool no = m.surely_invalid(mu), yes = !no && m.surely_valid(mu, model::band);
            vx_assume(yes || no);  // stability within the tolerance is not judged
            if (!yes)
                continue;
            const double e = m.energy();
            valid.push_back(k);
            energies.push_back(e);
            least = std::min(least, e);
            if (q_of(m, pattern != 0 ? g.p[0].lower : g.p[0].upper) != -1)
                continue;
            for (int o = 0; o < 2; ++o)
                for (int in = 0; in < 2; ++in)
                {
                    if (!encodes(m, g.p[2], o != 0) || !encodes(m, g.p[1], g.one_wire ? o != 0 : in != 0))
                        continue;
                    auto& to = (o != 0) == want && (g.one_wire || in == static_cast<int>(pattern)) ? intended : other;
                    to       = std::min(to, e);
                }
        }
        vx_assume(intended > 1e8 || other > 1e8 || intended - other > 1e-5 || other - intended > 1e-5);
        pass &= intended < 1e8 && intended < other;
        bool good = !valid.empty();
        for (unsigned j = 0; j < valid.size(); ++j)
        {
            if (energies[j] > least + 1e-7)
                continue;
            for (int i = 0; i < m.n; ++i)
                m.q[i] = ((valid[j] >> i) & 1) - 1;
            good &= encodes(m, g.p[2], want) && encodes(m, g.p[1], pattern != 0) && (!g.one_wire || encodes(m, g.p[1], want));
            negative &= q_of(m, pattern != 0 ? g.p[0].lower : g.p[0].upper) == -1;
        }
        right &= good;
    }
    using how   = is_operational_params::operational_analysis_strategy;
    const auto OP = operational_status::OPERATIONAL;
    if (negative)
        vx_check(!right || pass, "the rules do not reject a gate that works");
    q.strategy_to_analyze_operational_status = how::FILTER_ONLY;
    const auto r                             = is_operational(g.l, spec, q);
    vx_check((r.first == OP) == pass, "filtering judges the values of the wires");
    vx_check(r.second == 0, "filtering does not simulate");
    if (pass)
        vx_reach("passes");
    else
        vx_reach("rejected");
    q.strategy_to_analyze_operational_status = how::FILTER_THEN_SIMULATION;
    const auto wi = detect_bdl_wires(g.l, q.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::INPUT);
    const auto wo = detect_bdl_wires(g.l, q.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::OUTPUT);
    const auto s  = is_operational(g.l, spec, q, wi, wo);
    vx_check((s.first == OP) == (pass && right), "filtering and simulation together");
    bdl_input_iterator<L> it{g.l};
    std::vector<L>        inputs{};
    for (uint64_t k = 0; k < 2; ++k)
    {
        it = k;
        inputs.push_back((*it).clone());
    }
    const auto u = is_operational(inputs, spec, q, wi, wo);
    vx_check(u == s, "layouts of the input patterns given");
    q.strategy_to_analyze_operational_status = how::SIMULATION_ONLY;
    vx_check((is_operational(g.l, spec, q, wi, wo).first == OP) == right, "simulation alone");
}
VX_ENTRY(bd_temperature)
{
    // the least temperature at which, for some input, states with the wrong output are occupied too often
    const auto     part = vx_part();
    const gate     g{static_cast<int>(part % 4)};
    const unsigned f  = static_cast<unsigned>(vx_concretize(vx_range("function", 0, 3)));
    const double   mu = vx_f64("mu");
    vx_assume(mu >= VX_B(-0.36, -0.5) && mu <= VX_B(-0.12, 0.0));
    constexpr double            C[3]{0.99, 0.9, 0.999999};
    critical_temperature_params q{};
    q.operational_params.simulation_parameters = sidb_simulation_parameters{2, mu};
    q.operational_params.op_condition          = is_operational_params::operational_condition::TOLERATE_KINKS;
    q.max_temperature                          = VX_B(120, 300);
    q.confidence_level                         = C[vx_concretize(vx_range("confidence", 0, VX_B(1, 2)))];
    const std::vector<TT>            spec{function(f)};
    std::vector<std::vector<double>> right(2), wrong(2);
    bool                             fails = false;
    double                           gap   = 1e9;
    for (unsigned pattern = 0; pattern < 2 && !fails; ++pattern)
    {
        model      m{g.dots(pattern), q.operational_params.simulation_parameters};
        const bool want = (f >> pattern) & 1u;
        double     most = 0, least = 1e9, least_wrong = 1e9;
        for (int i = 0; i < m.n; ++i)
            m.q[i] = -1;
        for (int i = 0; i < m.n; ++i)
            most = std::min(most, m.internal(i));
        vx_assume(most < mu - 0.59 - model::band || most > mu - 0.59 + model::band);
        fails = most < mu - 0.59;
        for (int k = 0; k < 1 << m.n && !fails; ++k)
        {
            for (int i = 0; i < m.n; ++i)
                m.q[i] = ((k >> i) & 1) - 1;
            const bool no = m.surely_invalid(mu), yes = !no && m.surely_valid(mu, model::band);
            vx_assume(yes || no);  // stability within the tolerance is not judged
            if (!yes)
                continue;
            const bool   good = (q_of(m, g.p[2].lower) != 0) == want;
            const double e    = m.energy();
            (good ? right : wrong)[pattern].push_back(e);
            (good ? least : least_wrong) = std::min(good ? least : least_wrong, e);
        }
        if (fails)
            break;
        vx_assume(least > 1e8 || least_wrong - least > 1e-5 || least - least_wrong > 1e-5);  // no ground states of both kinds
        fails = least > least_wrong || least > 1e8;
        if (!fails && least_wrong < 1e8)
            gap = std::min(gap, 1000 * (least_wrong - least));
    }
    const auto too_often = [&](double t, double slack)
    {
        bool r = false;
        for (unsigned p = 0; p < 2; ++p)
        {
            double       least = 1e9, good = 0, bad = 0;
            const double kt = 1.380649e-23 / 1.602176634e-19 * t;
            for (const auto e : right[p])
                least = std::min(least, e);
            for (const auto e : right[p])
                good += std::exp((least - e) / kt);
            for (const auto e : wrong[p])
                bad += std::exp((least - e) / kt);
            r |= bad / (good + bad) > 1.0 - q.confidence_level + slack;
        }
        return r;
    };
    critical_temperature_stats st{};
    const double               t = critical_temperature_gate_based(g.l, spec, q, &st);
    if (fails)
    {
        vx_check(t == 0.0, "zero when some input is not computed right");
        return;
    }
    vx_reach("computes");
    vx_check(t > 0.0 && t <= q.max_temperature, "a temperature up to the maximum");
    vx_check(gap > 1e8 ? std::isinf(st.energy_between_ground_state_and_first_erroneous) : near(st.energy_between_ground_state_and_first_erroneous, gap), "energy up to the first wrong state");
    vx_check(t == q.max_temperature || too_often(t, -1e-6), "above it, wrong states are occupied too often");
    vx_check(t < 0.015 || !too_often(t - 0.01, 1e-6), "below it, they are not");
    if (t < q.max_temperature)
        vx_reach("critical");
}
