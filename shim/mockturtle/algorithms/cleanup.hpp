// Stand-in for mockturtle's copies of networks.
#pragma once
#include <type_traits>
#include <utility>
#include <vector>
#include "../traits.hpp"
#include "../utils/node_map.hpp"
#include "../views/topo_view.hpp"
namespace mockturtle
{
template <class NtkDest, class NtkSrc>
std::pair<NtkDest, node_map<signal<NtkDest>, NtkSrc>> initialize_copy_network(NtkSrc const& src)
{
    node_map<signal<NtkDest>, NtkSrc> old2new(src);
    NtkDest                           dest;
    old2new[src.get_constant(false)] = dest.get_constant(false);
    if (src.get_node(src.get_constant(true)) != src.get_node(src.get_constant(false)))
        old2new[src.get_constant(true)] = dest.get_constant(true);
    src.foreach_pi([&](auto const& n) { old2new[n] = dest.create_pi(); });
    return {dest, old2new};
}
template <class NtkSrc, class NtkDest = NtkSrc>
NtkDest cleanup_dangling(NtkSrc const& src, bool remove_dangling_PIs = false, bool remove_redundant_POs = false)
{
    (void)remove_redundant_POs;
    std::vector<signal<NtkDest>> m(src.node_to_index(src.size()) + 1);
    NtkDest                      dest;
    m[src.node_to_index(src.get_node(src.get_constant(false)))] = dest.get_constant(false);
    m[src.node_to_index(src.get_node(src.get_constant(true)))]  = dest.get_constant(true);
    src.foreach_pi(
        [&](auto const& n)
        {
            if (remove_dangling_PIs && src.fanout_size(n) == 0)
            {
                m[src.node_to_index(n)] = dest.get_constant(false);
                return;
            }
            const auto s = dest.create_pi();
            if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
                if (src.has_name(src.make_signal(n)))
                    dest.set_name(s, src.get_name(src.make_signal(n)));
            m[src.node_to_index(n)] = s;
        });
    if constexpr (has_get_network_name_v<NtkSrc> && has_set_network_name_v<NtkDest>)
        dest.set_network_name(src.get_network_name());
    topo_view<NtkSrc> topo{src};
    topo.foreach_gate(
        [&](auto const& n)
        {
            std::vector<signal<NtkDest>> children;
            src.foreach_fanin(n, [&](auto const& f) { children.push_back(m[src.node_to_index(src.get_node(f))]); });
            const auto s = dest.clone_node(src, n, children);
            if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
                if (src.has_name(src.make_signal(n)))
                    dest.set_name(s, src.get_name(src.make_signal(n)));
            m[src.node_to_index(n)] = s;
        });
    src.foreach_po(
        [&](auto const& f, auto i)
        {
            dest.create_po(m[src.node_to_index(src.get_node(f))]);
            if constexpr (has_has_output_name_v<NtkSrc> && has_get_output_name_v<NtkSrc> && has_set_output_name_v<NtkDest>)
                if (src.has_output_name(i))
                    dest.set_output_name(i, src.get_output_name(i));
        });
    return dest;
}
// copies into an existing network, on the given signals; returns the outputs
template <class NtkSrc, class NtkDest, class Leaves>
std::vector<signal<NtkDest>> cleanup_dangling(NtkSrc const& src, NtkDest& dest, Leaves begin, Leaves end)
{
    (void)end;
    std::vector<signal<NtkDest>> m(src.node_to_index(src.size()) + 1);
    m[src.node_to_index(src.get_node(src.get_constant(false)))] = dest.get_constant(false);
    if (src.get_node(src.get_constant(true)) != src.get_node(src.get_constant(false)))
        m[src.node_to_index(src.get_node(src.get_constant(true)))] = dest.get_constant(true);
    src.foreach_pi([&](auto const& n) { m[src.node_to_index(n)] = *begin++; });
    topo_view<NtkSrc> topo{src};
    topo.foreach_node(
        [&](auto const& n)
        {
            if (src.is_constant(n) || src.is_ci(n))
                return;
            std::vector<signal<NtkDest>> children;
            src.foreach_fanin(n, [&](auto const& f)
                              {
                                  const auto c = m[src.node_to_index(src.get_node(f))];
                                  children.push_back(src.is_complemented(f) ? dest.create_not(c) : c);
                              });
            m[src.node_to_index(n)] = dest.create_node(children, src.node_function(n));
        });
    std::vector<signal<NtkDest>> pos;
    src.foreach_po(
        [&](auto const& f)
        {
            const auto c = m[src.node_to_index(src.get_node(f))];
            pos.push_back(src.is_complemented(f) ? dest.create_not(c) : c);
        });
    return pos;
}
}  // namespace mockturtle
