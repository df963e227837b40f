// Colorings of graphs and the simultaneous routing of connections.
#include "lyt_check.h"
#include "nets_gen.h"

#include <fiction/algorithms/graph/generate_edge_intersection_graph.hpp>
#include <fiction/algorithms/graph/graph_coloring.hpp>
#include <fiction/algorithms/physical_design/color_routing.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/utils/routing_utils.hpp>
#include <array>
#include <set>
#include <vector>

using namespace fiction;
using namespace nets;

namespace
{
using graph = undirected_graph<std::size_t, int, undirected_pair<std::size_t>, std::size_t>;
using E     = graph_coloring_engine;

struct drawn
{
    graph                              g{};
    unsigned                           n;
    std::array<std::array<bool, 5>, 5> adj{};
};
drawn any_graph(const unsigned lo, const unsigned hi)
{
    drawn d{};
    d.n = pick("vertices", lo, hi);
    for (std::size_t v = 0; v < d.n; ++v)
        d.g.insert_vertex(v, 0);
    std::size_t e = 0;
    for (std::size_t i = 0; i < d.n; ++i)
        for (std::size_t j = i + 1; j < d.n; ++j)
            if (vx_bool(nm("e", static_cast<unsigned>(5 * i + j))))
            {
                d.adj[i][j] = d.adj[j][i] = true;
                d.g.insert_edge(i, j, e++);
            }
    return d;
}
// the least number of colors
unsigned chromatic(const drawn& d)
{
    for (unsigned k = 1; k < d.n; ++k)
    {
        unsigned total = 1;
        for (unsigned i = 0; i < d.n; ++i)
            total *= k;
        for (unsigned c = 0; c < total; ++c)
        {
            std::array<unsigned, 5> col{};
            unsigned                r = c;
            bool                    ok = true;
            for (unsigned i = 0; i < d.n; ++i)
            {
                col[i] = r % k;
                r /= k;
                for (unsigned j = 0; j < i; ++j)
                    ok = ok && (!d.adj[i][j] || col[i] != col[j]);
            }
            if (ok)
                return k;
        }
    }
    return d.n;
}
template <typename Coloring, typename Stats>
void check_coloring(const drawn& d, const Coloring& c, const Stats& st)
{
    vx_check(c.size() == d.n, "every vertex has a color");
    bool                    proper = true;
    std::set<std::size_t>   used;
    std::vector<unsigned>   freq(16, 0);
    for (unsigned i = 0; i < d.n; ++i)
    {
        used.insert(c.at(i));
        vx_check(c.at(i) < 16, "colors are small");
        ++freq[c.at(i)];
        for (unsigned j = 0; j < i; ++j)
            proper = proper && (!d.adj[i][j] || c.at(i) != c.at(j));
    }
    vx_check(proper, "adjacent vertices have different colors");
    vx_check(st.chromatic_number >= used.size(), "the number of colors is stated");
    unsigned most = 0;
    for (const auto f : freq)
        most = std::max(most, f);
    vx_check(st.color_frequency == most && freq.at(st.most_frequent_color) == most, "the most frequent color is stated");
    vx_check(st.coloring_verified.has_value() && *st.coloring_verified, "proper colorings are verified");
}
}  // namespace

VX_ENTRY(cr_color_heuristic)
{
    const auto d = any_graph(1, VX_B(4u, 5u));
    const E    engines[] = {E::MCS, E::DSATUR};
    determine_vertex_coloring_params<graph> ps{};
    ps.engine = engines[pick("engine", 0, 1)];
    ps.verify_coloring_after_computation = true;
    determine_vertex_coloring_stats<> st{};
    const auto c = determine_vertex_coloring(d.g, ps, &st);
    check_coloring(d, c, st);
    vx_reach("colored");
}
VX_ENTRY(cr_color_sat)
{
    const auto d = any_graph(1, 4);
    bill::first_value = [v = pick("first", 0, 1) != 0]() { return v; };
    determine_vertex_coloring_params<graph> ps{};
    ps.engine = E::SAT;
    const graph_coloring_sat_search_tactic tactics[] = {graph_coloring_sat_search_tactic::LINEARLY_ASCENDING, graph_coloring_sat_search_tactic::LINEARLY_DESCENDING, graph_coloring_sat_search_tactic::BINARY_SEARCH};
    ps.sat_params.sat_search_tactic = tactics[pick("tactic", 0, 2)];
    ps.verify_coloring_after_computation = true;
    // cliques may be known
    if (vx_bool("clique"))
    {
        const auto m = pick("members", 1, (1u << d.n) - 1);
        std::vector<std::size_t> q;
        for (unsigned i = 0; i < d.n; ++i)
            if ((m >> i) & 1u)
            {
                for (const auto j : q)
                    vx_assume(d.adj[i][j]);
                q.push_back(i);
            }
        ps.sat_params.cliques.push_back(q);
    }
    determine_vertex_coloring_stats<> st{};
    const auto c = determine_vertex_coloring(d.g, ps, &st);
    check_coloring(d, c, st);
    vx_check(st.chromatic_number == chromatic(d), "the chromatic number is found");
    vx_reach("colored");
}

namespace
{
using LYT  = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>>;
using T    = tile<LYT>;
using OBJ  = routing_objective<LYT>;
using path = std::vector<T>;

struct task
{
    LYT              l;
    std::vector<OBJ> goals{};
    std::vector<T>   placed{};
};
// all ways from a tile to another through empty ground tiles
void ways(const LYT& l, const T& to, path& p, std::vector<path>& out)
{
    const auto at = p.back();
    if (at == to)
    {
        out.push_back(p);
        return;
    }
    for (unsigned y = 0; y <= l.y(); ++y)
        for (unsigned x = 0; x <= l.x(); ++x)
        {
            const T    t{x, y};
            const auto dx = x > at.x ? x - at.x : at.x - x, dy = y > at.y ? y - at.y : at.y - y;
            if (dx + dy != 1 || (l.get_clock_number(at) + 1) % l.num_clocks() != l.get_clock_number(t))
                continue;
            if (t != to && !l.is_empty_tile(t))
                continue;
            if (std::find(p.begin(), p.end(), t) != p.end())
                continue;
            p.push_back(t);
            ways(l, to, p, out);
            p.pop_back();
        }
}
bool compatible(const path& a, const path& b, const bool cross)
{
    if (a.front() == b.front() && a.back() == b.back())
        return false;
    if (!cross)
    {
        for (std::size_t i = 1; i + 1 < a.size(); ++i)
            if (std::find(b.begin(), b.end(), a[i]) != b.end())
                return false;
        return true;
    }
    for (std::size_t i = 0; i + 1 < a.size(); ++i)
        for (std::size_t j = 0; j + 1 < b.size(); ++j)
            if (a[i] == b[j] && a[i + 1] == b[j + 1])
                return false;
    return true;
}
// most goals that can be reached together
unsigned most(const std::vector<std::vector<path>>& w, const std::size_t k, std::vector<const path*>& chosen, const bool cross)
{
    if (k == w.size())
        return 0;
    unsigned best = most(w, k + 1, chosen, cross);
    for (const auto& p : w[k])
    {
        bool ok = true;
        for (const auto* c : chosen)
            ok = ok && compatible(*c, p, cross);
        if (!ok)
            continue;
        chosen.push_back(&p);
        best = std::max(best, 1 + most(w, k + 1, chosen, cross));
        chosen.pop_back();
    }
    return best;
}
// which goals are reached in the layout, following wires back from a target
std::vector<T> sources(const LYT& l, const T& t, bool& ok)
{
    std::vector<T> r;
    for (auto u : l.incoming_data_flow(t))
    {
        for (unsigned guard = 0; l.is_wire_tile(u) && !l.is_pi_tile(u); ++guard)
        {
            const auto in = l.incoming_data_flow(u);
            ok            = ok && in.size() == 1 && guard < 32 && l.outgoing_data_flow(u).size() == 1;
            if (!ok)
                return r;
            u = in.front();
        }
        r.push_back(u);
    }
    return r;
}
void check_routing(task& k, const color_routing_params& ps, const bool exact)
{
    std::vector<std::vector<path>> w;
    unsigned                       hopeless = 0;
    for (const auto& g : k.goals)
    {
        std::vector<path> out;
        path              p{g.source};
        ways(k.l, g.target, p, out);
        hopeless += out.empty();
        w.push_back(out);
    }
    std::vector<const path*> chosen;
    const auto               best  = most(w, 0, chosen, ps.crossings);
    const auto               wires = k.l.num_wires();
    color_routing_stats      st{};
    const bool               r = color_routing(k.l, k.goals, ps, &st);
    vx_check(st.epg_stats.number_of_unroutable_objectives == hopeless || ps.path_limit.has_value(), "objectives without any path are counted");
    vx_check(!exact || r == (best == k.goals.size()) || ps.conduct_partial_routing, "all connections are routed exactly if that is possible");
    unsigned reached = 0;
    bool     ok = true, wanted = true;
    for (const auto& t : k.placed)
    {
        const auto s = sources(k.l, t, ok);
        reached += static_cast<unsigned>(s.size());
        std::vector<T> want;
        for (const auto& g : k.goals)
            if (g.target == t)
                want.push_back(g.source);
        for (const auto& x : s)
        {
            const auto it = std::find(want.begin(), want.end(), x);
            wanted        = wanted && it != want.end();
            if (it != want.end())
                want.erase(it);
        }
    }
    vx_check(ok, "routed paths are chains of wires");
    vx_check(wanted, "only connections asked for are made");
    vx_check(!r || reached + st.number_of_unsatisfied_objectives == k.goals.size(), "objectives left out are counted");
    vx_check(!r || ps.conduct_partial_routing || reached == k.goals.size(), "every connection asked for is made");
    vx_check(r || (reached == 0 && k.l.num_wires() == wires), "the layout remains if connections cannot be made");
    vx_check(!(exact && r && best == k.goals.size()) || reached == k.goals.size(), "all connections are made if that is possible");
    if (r)
        vx_reach("routed");
    if (!r || reached < k.goals.size())
        vx_reach("not all routed");
}
// two inputs and two gates anywhere
task any_task(const unsigned w, const unsigned h, const unsigned goals, const bool use)
{
    task k{LYT{{w - 1, h - 1, 1}, use ? use_clocking<LYT>() : twoddwave_clocking<LYT>()}};
    const auto spot = [&](const char* n)
    {
        const auto p = pick(n, 0, w * h - 1);
        const T    t{p % w, p / w};
        vx_assume(k.l.is_empty_tile(t));
        k.placed.push_back(t);
        return t;
    };
    const auto a = spot("a");
    k.l.create_pi("a", a);
    const auto b = spot("b");
    k.l.create_pi("b", b);
    const auto x = spot("x");
    k.l.move_node(k.l.get_node(k.l.create_and({}, {}, x)), x, {});
    const auto y = spot("y");
    k.l.move_node(k.l.get_node(k.l.create_and({}, {}, y)), y, {});
    const bool swap = vx_bool("swap");
    k.goals.push_back({a, x});
    k.goals.push_back(swap ? OBJ{b, x} : OBJ{b, y});
    if (goals > 2)
        k.goals.push_back(swap ? OBJ{a, y} : OBJ{b, x});
    return k;
}
}  // namespace

VX_ENTRY(cr_route)
{
    auto k = any_task(3, 3, 2, vx_bool("use"));
    color_routing_params ps{};
    ps.crossings = vx_bool("crossings");
    check_routing(k, ps, true);
}
VX_ENTRY(cr_route_three)
{
    auto k = any_task(VX_B(3u, 4u), 3, 3, vx_bool("use"));
    color_routing_params ps{};
    ps.crossings               = vx_bool("crossings");
    ps.conduct_partial_routing = vx_bool("partial");
    check_routing(k, ps, true);
}
VX_ENTRY(cr_route_heuristic)
{
    auto       k = any_task(3, 3, 3, false);
    const auto m = pick("mode", 0, 4);
    color_routing_params ps{};
    ps.crossings               = m > 1 && vx_bool("crossings");
    ps.engine                  = m == 0 ? E::MCS : m == 1 ? E::DSATUR : E::SAT;
    ps.conduct_partial_routing = m == 0 || m == 2 || m == 4;
    ps.partial_sat             = m == 2;
    if (m > 2)
        ps.path_limit = m - 2;
    check_routing(k, ps, false);
}
VX_ENTRY(cr_route_wires)
{
    // a wire lies in the way already
    LYT        l{{3, 2, 1}, twoddwave_clocking<LYT>()};
    const auto col = pick("column", 1, 2);
    l.create_po(l.create_buf(l.create_pi("p", T{col, 0}), T{col, 1}), "o", T{col, 2});
    task       k{l};
    const auto spot = [&](const char* n)
    {
        const auto p = pick(n, 0, 11);
        const T    t{p % 4, p / 4};
        vx_assume(k.l.is_empty_tile(t));
        k.placed.push_back(t);
        return t;
    };
    const auto a = spot("a");
    k.l.create_pi("a", a);
    const auto x = spot("x");
    k.l.move_node(k.l.get_node(k.l.create_and({}, {}, x)), x, {});
    k.goals.push_back({a, x});
    color_routing_params ps{};
    ps.crossings = vx_bool("crossings");
    // empty tiles, or straight across the wire
    const bool straight = ps.crossings && a.y <= 1 && a.x < col && x.x > col && x.y >= 1;
    path              p{a};
    std::vector<path> out;
    ways(k.l, x, p, out);
    const bool r = color_routing(k.l, k.goals, ps);
    vx_check(r == (!out.empty() || straight), "connections are routed exactly if that is possible");
    bool       ok = true;
    const auto s  = sources(k.l, x, ok);
    vx_check(ok && (r ? s == std::vector<T>{a} : s.empty()), "the connection is made");
    const auto q = sources(k.l, T{col, 2}, ok);
    vx_check(ok && q == std::vector<T>{T{col, 0}}, "other connections remain");
    if (r)
        vx_reach("routed");
    else
        vx_reach("not routed");
}
VX_ENTRY(cr_reroute)
{
    // the connections of a layout are found, removed and made anew
    const auto n = make<NAM>({.max_pi = 2, .gates = 2, .pos = 2, .types = 1u << NOT | 1u << AND | 1u << XOR, .free_pi = false, .distinct = true});
    auto       l = orthogonal<LYT>(n.ntk);
    const auto goals = extract_routing_objectives(l);
    unsigned   pins = 0;
    l.foreach_node([&](const auto& m) { if (!l.is_constant(m) && (!l.is_wire(m) || l.is_po(m) || l.is_fanout(m))) pins += l.fanin_size(m); });
    vx_check(goals.size() == pins, "every connection is found once");
    clear_routing(l);
    bool clear = true;
    l.foreach_node([&](const auto& m) { if (!l.is_constant(m)) clear = clear && l.fanin_size(m) == 0; });
    vx_check(clear, "all connections are removed");
    color_routing_params ps{};
    ps.crossings = true;
    const bool r = color_routing(l, goals, ps);
    vx_check(r, "the connections are made anew");
    check_wellformed(l);
    check_same_function(n, l, used_bits(n));
    vx_reach("rerouted");
}
