// Stand-in for mockturtle's SAT-based equivalence checking: evaluates the miter for every assignment of its inputs.
#pragma once
#include <cstdint>
#include <optional>
#include <vector>
#include "../views/topo_view.hpp"
#include <kitty/bit_operations.hpp>
namespace mockturtle
{
struct equivalence_checking_params
{
    uint32_t conflict_limit{0};
    bool     functional_reduction{true};
    bool     verbose{false};
};
struct equivalence_checking_stats
{
    std::vector<bool> counter_example{};
};
template <class Ntk>
std::optional<bool> equivalence_checking(Ntk const& m, equivalence_checking_params const& = {}, equivalence_checking_stats* st = nullptr)
{
    const auto k = m.num_pis();
    if (k > 12)
        return std::nullopt;
    std::vector<bool> val(m.size());
    topo_view<Ntk>    topo{m};
    for (unsigned v = 0; v < (1u << k); ++v)
    {
        for (unsigned i = 0; i < k; ++i)
            val[m.node_to_index(m.pi_at(i))] = (v >> i) & 1u;
        val[m.node_to_index(m.get_node(m.get_constant(false)))] = false;
        val[m.node_to_index(m.get_node(m.get_constant(true)))]  = true;
        topo.foreach_node(
            [&](auto const& n)
            {
                if (m.is_constant(n) || m.is_ci(n))
                    return;
                unsigned idx = 0, i = 0;
                m.foreach_fanin(n, [&](auto const& f) { idx |= static_cast<unsigned>(val[m.node_to_index(m.get_node(f))] != m.is_complemented(f)) << i++; });
                val[m.node_to_index(n)] = kitty::get_bit(m.node_function(n), idx);
            });
        bool differ = false;
        m.foreach_po([&](auto const& f) { differ = differ || val[m.node_to_index(m.get_node(f))] != m.is_complemented(f); });
        if (differ)
        {
            if (st)
            {
                st->counter_example.clear();
                for (unsigned i = 0; i < k; ++i)
                    st->counter_example.push_back((v >> i) & 1u);
            }
            return false;
        }
    }
    return true;
}
}  // namespace mockturtle
