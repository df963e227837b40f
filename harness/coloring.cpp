// Vendored graph colouring library.
#include "vx.h"
#include <cstddef>
#include <cstdint>
#include <memory>
#include <coloring_algorithm.hpp>
#include <dsatur.hpp>
#include <lmxrlf.hpp>
#include <mcs.hpp>
#include <tabucol.hpp>
#include <string>
using namespace GraphColoring;
namespace
{
using graph_t = std::map<std::string, std::vector<std::string>>;
const char* const nodes[6] = {"A", "B", "C", "D", "E", "F"};
struct sym_graph
{
    int  n = 0;
    bool adj[6][6]{};
    void draw(int count, const char* name)
    {
        n = count;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j)
                adj[i][j] = adj[j][i] = vx_bool(name);
    }
    // neighbours are listed in ascending or descending order
    [[nodiscard]] graph_t map(bool rev = false) const
    {
        graph_t g;
        for (int i = 0; i < n; ++i)
        {
            auto& l = g[nodes[i]];
            for (int k = 0; k < n; ++k)
            {
                const int j = rev ? n - 1 - k : k;
                if (adj[i][j])
                    l.push_back(nodes[j]);
            }
        }
        return g;
    }
    [[nodiscard]] int max_degree() const
    {
        int m = 0;
        for (int i = 0; i < n; ++i)
        {
            int d = 0;
            for (int j = 0; j < n; ++j)
                d += adj[i][j];
            m = d > m ? d : m;
        }
        return m;
    }
    // vertices that form an independent set / a clique
    [[nodiscard]] bool independent(unsigned s) const
    {
        bool r = true;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j)
                if ((s >> i & 1) && (s >> j & 1))
                    r = r & !adj[i][j];
        return r;
    }
    [[nodiscard]] bool clique(unsigned s) const
    {
        bool r = true;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j)
                if ((s >> i & 1) && (s >> j & 1))
                    r = r & adj[i][j];
        return r;
    }
    [[nodiscard]] int clique_number() const
    {
        int best = 0;
        for (unsigned s = 0; s < 1u << n; ++s)
        {
            const int c = __builtin_popcount(s);
            if (clique(s) & (c > best))
                best = c;
        }
        return best;
    }
    [[nodiscard]] bool bipartite() const
    {
        bool r = false;
        for (unsigned s = 0; s < 1u << n; ++s)
            r = r | (independent(s) & independent(~s & ((1u << n) - 1)));
        return r;
    }
    // repeatedly removes a vertex whose remaining neighbours form a clique
    [[nodiscard]] bool chordal() const
    {
        unsigned left = (1u << n) - 1;
        for (int step = 0; step < n; ++step)
        {
            bool done = false;
            for (int v = 0; v < n && !done; ++v)
            {
                if (!(left >> v & 1))
                    continue;
                unsigned nb = 0;
                for (int j = 0; j < n; ++j)
                    if ((left >> j & 1) && adj[v][j])
                        nb |= 1u << j;
                if (clique(nb))
                    left &= ~(1u << v), done = true;
            }
            if (!done)
                return false;
        }
        return true;
    }
};
int used_colors(const std::map<std::string, int>& c)
{
    int m = -1;
    for (const auto& [k, v] : c)
        m = v > m ? v : m;
    return m + 1;
}
void proper(GraphColor& a, const std::map<std::string, int>& c, const sym_graph& g)
{
    vx_check(static_cast<int>(c.size()) == g.n, "every vertex is coloured and nothing else");
    for (int i = 0; i < g.n; ++i)
    {
        const auto it = c.find(nodes[i]);
        vx_check(it != c.end() && it->second >= 0, "every vertex has a colour");
        vx_check(a.get_color(nodes[i]) == it->second, "get_color is the colour of the vertex");
        for (int j = 0; j < i; ++j)
            if (g.adj[i][j])
                vx_check(it->second != c.at(nodes[j]), "adjacent vertices have different colours");
    }
    // no gaps
    for (int k = 0; k < used_colors(c); ++k)
    {
        bool hit = false;
        for (const auto& [n, v] : c)
            hit = hit || v == k;
        vx_check(hit, "colours are contiguous");
    }
    vx_check(a.is_valid() && a.is_colored(), "a colouring is reported valid");
    vx_check(a.get_coloring() == c, "the colouring is kept");
    vx_check(a.get_num_colors() == used_colors(c), "the number of colours is reported");
    vx_check(a.size() == static_cast<std::size_t>(g.n), "size is the number of vertices");
}
int count(int quick, int thorough)
{
    return static_cast<int>(vx_concretize(vx_range("n", 1, static_cast<std::uint64_t>(VX_B(quick, thorough)))));
}
}  // namespace
VX_ENTRY(col_mcs)
{
    sym_graph g;
    g.draw(count(5, 6), "edge");
    Mcs a{g.map(vx_bool("rev"))};
    vx_check(!a.is_colored() && a.get_color("A") == -1, "nothing is coloured before");
    const auto c = a.color();
    proper(a, c, g);
    vx_check(used_colors(c) <= g.max_degree() + 1, "at most one colour more than the largest degree");
    if (g.chordal())
        vx_check(used_colors(c) == g.clique_number(), "optimal on chordal graphs");
    else
        vx_reach("graphs that are not chordal");
    Mcs e{graph_t{}};
    vx_check(e.color().empty() && !e.is_colored(), "nothing to colour");
}
VX_ENTRY(col_dsatur)
{
    sym_graph g;
    g.draw(count(5, 6), "edge");
    Dsatur     a{g.map(vx_bool("rev"))};
    const auto c = a.color();
    proper(a, c, g);
    vx_check(used_colors(c) <= g.max_degree() + 1, "at most one colour more than the largest degree");
    if (g.bipartite())
        vx_check(used_colors(c) <= 2, "exact on bipartite graphs");
    else
        vx_check(used_colors(c) >= 3, "odd cycles need three colours");
    Dsatur e{graph_t{}};
    vx_check(e.color().empty() && !e.is_colored(), "nothing to colour");
}
// state queries on arbitrary colourings (Tabucol accepts one from outside)
VX_ENTRY(col_state)
{
    sym_graph g;
    g.draw(3, "edge");
    Tabucol                    a{g.map()};
    std::map<std::string, int> c;
    const bool                 all = vx_bool("all");
    int                        v[3];
    const char* const          names[3] = {"c0", "c1", "c2"};
    for (int i = 0; i < 3; ++i)
    {
        v[i] = static_cast<int>(vx_irange(names[i], -1, 4));
        if (i < 2 || all)
            c[nodes[i]] = v[i];
    }
    a.set_coloring(c);
    bool valid = all;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            if (i != j)
                valid = valid & !(g.adj[i][j] & ((v[i] == v[j]) | (v[i] == -1)));
    vx_check(a.is_valid() == valid, "valid means every vertex is coloured differently from its neighbours");
    const bool colored = (v[0] != -1) & (v[1] != -1) & (!all | (v[2] != -1));
    vx_check(a.is_colored() == colored, "coloured means that no vertex is without colour");
    int m = 0;
    for (int i = 0; i < (all ? 3 : 2); ++i)
        m = v[i] > m ? v[i] : m;
    vx_check(a.get_num_colors() == m + 1, "the number of colours is one more than the largest colour");
    for (int i = 0; i < 3; ++i)
        vx_check(a.get_color(nodes[i]) == (i < 2 || all ? v[i] : -1), "get_color is the colour of the vertex");
    vx_check(a.get_color("nobody") == -1, "unknown vertices have no colour");
}
// histories: colour, change the graph, colour again
VX_ENTRY(col_rework)
{
    sym_graph  g, h;
    const bool kind = vx_bool("dsatur"), whole = vx_bool("set_graph");
    g.draw(3, "edge");
    h.draw(whole ? static_cast<int>(vx_concretize(vx_range("m", 2, VX_B(3, 4)))) : VX_B(3, 4), "new_edge");
    std::unique_ptr<GraphColor> a;
    if (kind)
        a = std::make_unique<Dsatur>(g.map());
    else
        a = std::make_unique<Mcs>(g.map());
    if (vx_bool("before"))
        a->color();
    if (whole)
        a->set_graph(h.map());
    else
        for (const auto& [node, nb] : h.map())
            a->modify_graph(node, nb);
    const auto c = a->color();
    proper(*a, c, h);
    if (kind && h.bipartite())
        vx_check(used_colors(c) <= 2, "exact on bipartite graphs");
    if (!kind && h.chordal())
        vx_check(used_colors(c) == h.clique_number(), "optimal on chordal graphs");
}
VX_ENTRY(col_lmxrlf)
{
    vx_rand_max = 5;
    sym_graph g;
    const int  n = count(3, 4);
    const bool improve = n <= VX_B(2, 2);
    g.draw(n, "edge");
    vx_rand_max = n == 1 ? 0 : n == 2 ? 1 : n == 3 ? 5 : 11;
    const int  global = improve ? static_cast<int>(vx_range("global", 0, 1)) : 0;
    const int  local  = improve ? static_cast<int>(vx_range("local", 0, 1)) : 0;
    Lmxrlf     a{g.map(), 0, global, 1, local};
    const auto c = a.color();
    proper(a, c, g);
    vx_check(used_colors(c) <= g.n, "no more colours than vertices");
}
VX_ENTRY(col_tabucol)
{
    sym_graph g;
    g.draw(count(2, 3), "edge");
    vx_rand_max = 5;
    const int  k = static_cast<int>(vx_concretize(vx_range("colors", 0, 4)));
    Tabucol    a{g.map(), k, 1, 1, VX_B(1, 1)};
    const auto c = a.color();
    vx_check(a.get_coloring() == c, "the colouring is kept");
    if (c.empty())
    {
        vx_check(!a.is_valid() && !a.is_colored(), "a failed search leaves no colouring");
        vx_reach("search fails");
    }
    else
    {
        proper(a, c, g);
        vx_check(used_colors(c) <= k, "no more colours than allowed");
    }
}
VX_ENTRY(col_contiguous)
{
    Tabucol                    a{graph_t{}};
    std::map<std::string, int> c;
    const char* const          names[3] = {"c0", "c1", "c2"};
    int                        v[3];
    for (int i = 0; i < 3; ++i)
        c[nodes[i]] = v[i] = static_cast<int>(vx_irange(names[i], 0, 5));
    const auto r = a.make_colors_contiguous(c);
    vx_check(r.size() == 3, "no vertex is lost");
    const int w[3] = {r.at("A"), r.at("B"), r.at("C")};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            vx_check((w[i] == w[j]) == (v[i] == v[j]), "the colour classes stay the same");
    vx_check(w[0] == 0 && w[1] <= 1 && w[2] <= 2 && w[1] >= 0 && w[2] >= 0 && w[2] <= (w[1] == 1 ? 2 : 1), "colours are numbered without gaps");
}
