#pragma once
#include <algorithm>
#include <cstdint>
#include <vector>
#include "../traits.hpp"
#include "../utils/cost_functions.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
struct depth_view_params
{
    bool count_complements = false;
    bool pi_cost           = false;
};
template <class Ntk, class NodeCostFn = unit_cost<Ntk>, bool has_depth = false>
class depth_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit depth_view(NodeCostFn const& c = {}, depth_view_params const& p = {}) : Ntk(), cost_(c), ps_(p) {}
    explicit depth_view(Ntk const& n, NodeCostFn const& c = {}, depth_view_params const& p = {}) : Ntk(n), cost_(c), ps_(p) { update_levels(); }
    uint32_t depth() const { return depth_; }
    uint32_t level(node const& n) const { return lv_.at(this->node_to_index(n)); }
    void     set_level(node const& n, uint32_t l) { lv_[this->node_to_index(n)] = l; }
    void     set_depth(uint32_t d) { depth_ = d; }
    bool     is_on_critical_path(node const&) const { return false; }
    void     update_levels()
    {
        lv_.assign(Ntk::size(), 0);
        seen_.assign(Ntk::size(), false);
        depth_ = 0;
        this->foreach_po([this](auto const& f) { depth_ = std::max(depth_, rec(this->get_node(f))); });
    }

  private:
    uint32_t rec(node const& n)
    {
        const auto i = this->node_to_index(n);
        if (seen_[i])
            return lv_[i];
        seen_[i] = true;
        if (this->is_constant(n))
            return lv_[i] = 0;
        if (this->is_ci(n))
            return lv_[i] = ps_.pi_cost ? cost_(*this, n) - 1 : 0;
        uint32_t l = 0;
        this->foreach_fanin(n, [this, &l](auto const& f) { l = std::max(l, rec(this->get_node(f))); });
        return lv_[i] = l + cost_(*this, n);
    }
    std::vector<uint32_t> lv_;
    std::vector<bool>     seen_;
    uint32_t              depth_ = 0;
    NodeCostFn            cost_;
    depth_view_params     ps_;
};
template <class T>
depth_view(T const&) -> depth_view<T>;
}  // namespace mockturtle
