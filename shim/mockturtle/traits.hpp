// Stand-in for mockturtle/traits.hpp.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace kitty
{
class dynamic_truth_table;
}
namespace mockturtle
{
using vx_std_string = std::string;
template <typename Ntk>
using signal = typename Ntk::signal;
template <typename Ntk>
using node = typename Ntk::node;

template <class Ntk, class = void>
struct is_network_type : std::false_type
{};
template <class Ntk>
struct is_network_type<Ntk, std::void_t<typename Ntk::base_type, typename Ntk::signal, typename Ntk::node, typename Ntk::storage,
                                        decltype(Ntk::max_fanin_size), decltype(Ntk::min_fanin_size)>> : std::true_type
{};
template <class Ntk>
inline constexpr bool is_network_type_v = is_network_type<Ntk>::value;
template <class Ntk, class = void>
struct is_topologically_sorted : std::false_type
{};
template <class Ntk>
struct is_topologically_sorted<Ntk, std::enable_if_t<Ntk::is_topologically_sorted>> : std::true_type
{};
template <class Ntk>
inline constexpr bool is_topologically_sorted_v = is_topologically_sorted<Ntk>::value;

#define VX_HAS(NAME, ...)                                                            \
    template <class Ntk, class = void>                                               \
    struct has_##NAME : std::false_type                                              \
    {};                                                                              \
    template <class Ntk>                                                             \
    struct has_##NAME<Ntk, std::void_t<decltype(__VA_ARGS__)>> : std::true_type      \
    {};                                                                              \
    template <class Ntk>                                                             \
    inline constexpr bool has_##NAME##_v = has_##NAME<Ntk>::value;
#define VX_N std::declval<Ntk>()
#define VX_NODE std::declval<node<Ntk>>()
#define VX_SIG std::declval<signal<Ntk>>()
#define VX_FN(T) std::declval<void(T, uint32_t)>()

VX_HAS(clone, VX_N.clone())
VX_HAS(get_constant, VX_N.get_constant(bool()))
VX_HAS(create_pi, VX_N.create_pi())
VX_HAS(create_po, VX_N.create_po(VX_SIG))
VX_HAS(is_constant, VX_N.is_constant(VX_NODE))
VX_HAS(constant_value, VX_N.constant_value(VX_NODE))
VX_HAS(is_ci, VX_N.is_ci(VX_NODE))
VX_HAS(is_pi, VX_N.is_pi(VX_NODE))
VX_HAS(create_buf, VX_N.create_buf(VX_SIG))
VX_HAS(create_not, VX_N.create_not(VX_SIG))
VX_HAS(create_and, VX_N.create_and(VX_SIG, VX_SIG))
VX_HAS(create_nand, VX_N.create_nand(VX_SIG, VX_SIG))
VX_HAS(create_or, VX_N.create_or(VX_SIG, VX_SIG))
VX_HAS(create_nor, VX_N.create_nor(VX_SIG, VX_SIG))
VX_HAS(create_xor, VX_N.create_xor(VX_SIG, VX_SIG))
VX_HAS(create_xnor, VX_N.create_xnor(VX_SIG, VX_SIG))
VX_HAS(create_lt, VX_N.create_lt(VX_SIG, VX_SIG))
VX_HAS(create_gt, VX_N.create_gt(VX_SIG, VX_SIG))
VX_HAS(create_le, VX_N.create_le(VX_SIG, VX_SIG))
VX_HAS(create_ge, VX_N.create_ge(VX_SIG, VX_SIG))
VX_HAS(create_maj, VX_N.create_maj(VX_SIG, VX_SIG, VX_SIG))
VX_HAS(create_ite, VX_N.create_ite(VX_SIG, VX_SIG, VX_SIG))
VX_HAS(create_xor3, VX_N.create_xor3(VX_SIG, VX_SIG, VX_SIG))
VX_HAS(create_nary_and, VX_N.create_nary_and(std::declval<std::vector<signal<Ntk>>>()))
VX_HAS(create_nary_or, VX_N.create_nary_or(std::declval<std::vector<signal<Ntk>>>()))
VX_HAS(create_nary_xor, VX_N.create_nary_xor(std::declval<std::vector<signal<Ntk>>>()))
VX_HAS(create_node, VX_N.create_node(std::declval<std::vector<signal<Ntk>>>(), std::declval<kitty::dynamic_truth_table>()))
VX_HAS(clone_node, VX_N.clone_node(std::declval<Ntk>(), VX_NODE, std::declval<std::vector<signal<Ntk>>>()))
VX_HAS(substitute_node, VX_N.substitute_node(VX_NODE, VX_SIG))
VX_HAS(size, VX_N.size())
VX_HAS(num_cis, VX_N.num_cis())
VX_HAS(num_cos, VX_N.num_cos())
VX_HAS(num_pis, VX_N.num_pis())
VX_HAS(num_pos, VX_N.num_pos())
VX_HAS(num_gates, VX_N.num_gates())
VX_HAS(num_registers, VX_N.num_registers())
VX_HAS(fanin_size, VX_N.fanin_size(VX_NODE))
VX_HAS(fanout_size, VX_N.fanout_size(VX_NODE))
VX_HAS(incr_fanout_size, VX_N.incr_fanout_size(VX_NODE))
VX_HAS(depth, VX_N.depth())
VX_HAS(level, VX_N.level(VX_NODE))
VX_HAS(update_levels, VX_N.update_levels())
VX_HAS(rank_position, VX_N.rank_position(VX_NODE))
VX_HAS(at_rank_position, VX_N.at_rank_position(uint32_t(), uint32_t()))
VX_HAS(width, VX_N.width())
VX_HAS(swap, VX_N.swap(VX_NODE, VX_NODE))
VX_HAS(get_node, VX_N.get_node(VX_SIG))
VX_HAS(make_signal, VX_N.make_signal(VX_NODE))
VX_HAS(is_complemented, VX_N.is_complemented(VX_SIG))
VX_HAS(node_to_index, VX_N.node_to_index(VX_NODE))
VX_HAS(index_to_node, VX_N.index_to_node(uint32_t()))
VX_HAS(is_and, VX_N.is_and(VX_NODE))
VX_HAS(is_or, VX_N.is_or(VX_NODE))
VX_HAS(is_xor, VX_N.is_xor(VX_NODE))
VX_HAS(is_maj, VX_N.is_maj(VX_NODE))
VX_HAS(is_ite, VX_N.is_ite(VX_NODE))
VX_HAS(is_xor3, VX_N.is_xor3(VX_NODE))
VX_HAS(is_nary_and, VX_N.is_nary_and(VX_NODE))
VX_HAS(is_nary_or, VX_N.is_nary_or(VX_NODE))
VX_HAS(is_nary_xor, VX_N.is_nary_xor(VX_NODE))
VX_HAS(is_function, VX_N.is_function(VX_NODE))
VX_HAS(is_dead, VX_N.is_dead(VX_NODE))
VX_HAS(is_buf, VX_N.is_buf(VX_NODE))
VX_HAS(is_not, VX_N.is_not(VX_NODE))
VX_HAS(node_function, VX_N.node_function(VX_NODE))
VX_HAS(foreach_node, VX_N.foreach_node(VX_FN(node<Ntk>)))
VX_HAS(foreach_ci, VX_N.foreach_ci(VX_FN(node<Ntk>)))
VX_HAS(foreach_co, VX_N.foreach_co(VX_FN(signal<Ntk>)))
VX_HAS(foreach_pi, VX_N.foreach_pi(VX_FN(node<Ntk>)))
VX_HAS(foreach_po, VX_N.foreach_po(VX_FN(signal<Ntk>)))
VX_HAS(foreach_ro, VX_N.foreach_ro(VX_FN(node<Ntk>)))
VX_HAS(foreach_ri, VX_N.foreach_ri(VX_FN(signal<Ntk>)))
VX_HAS(foreach_gate, VX_N.foreach_gate(VX_FN(node<Ntk>)))
VX_HAS(foreach_fanin, VX_N.foreach_fanin(VX_NODE, VX_FN(signal<Ntk>)))
VX_HAS(foreach_fanout, VX_N.foreach_fanout(VX_NODE, VX_FN(node<Ntk>)))
VX_HAS(foreach_node_in_rank, VX_N.foreach_node_in_rank(uint32_t(), VX_FN(node<Ntk>)))
VX_HAS(foreach_gate_in_rank, VX_N.foreach_gate_in_rank(uint32_t(), VX_FN(node<Ntk>)))
VX_HAS(ci_at, VX_N.ci_at(uint32_t()))
VX_HAS(co_at, VX_N.co_at(uint32_t()))
VX_HAS(pi_at, VX_N.pi_at(uint32_t()))
VX_HAS(po_at, VX_N.po_at(uint32_t()))
VX_HAS(clear_values, VX_N.clear_values())
VX_HAS(value, VX_N.value(VX_NODE))
VX_HAS(set_value, VX_N.set_value(VX_NODE, uint32_t()))
VX_HAS(clear_visited, VX_N.clear_visited())
VX_HAS(visited, VX_N.visited(VX_NODE))
VX_HAS(set_visited, VX_N.set_visited(VX_NODE, uint32_t()))
VX_HAS(trav_id, VX_N.trav_id())
VX_HAS(incr_trav_id, VX_N.incr_trav_id())
VX_HAS(get_network_name, VX_N.get_network_name())
VX_HAS(set_network_name, VX_N.set_network_name(std::string()))
VX_HAS(get_name, VX_N.get_name(VX_SIG))
VX_HAS(set_name, VX_N.set_name(VX_SIG, std::string()))
VX_HAS(has_name, VX_N.has_name(VX_SIG))
VX_HAS(get_input_name, VX_N.get_input_name(uint32_t()))
VX_HAS(set_input_name, VX_N.set_input_name(uint32_t(), std::string()))
VX_HAS(has_input_name, VX_N.has_input_name(uint32_t()))
VX_HAS(get_output_name, VX_N.get_output_name(uint32_t()))
VX_HAS(set_output_name, VX_N.set_output_name(uint32_t(), std::string()))
VX_HAS(has_output_name, VX_N.has_output_name(uint32_t()))
VX_HAS(EXODC_interface, VX_N.build_oe_miter(VX_N, VX_N))

template <class Iterator, class T>
using iterates_over_t = std::enable_if_t<std::is_same_v<typename Iterator::value_type, T>, T>;
template <class T>
inline constexpr bool vx_is_tt = std::is_same_v<std::remove_cv_t<T>, kitty::dynamic_truth_table>;
template <class Iterator>
using iterates_over_truth_table_t = std::enable_if_t<vx_is_tt<typename Iterator::value_type>, typename Iterator::value_type>;
}  // namespace mockturtle
