#pragma once
#include <cstdint>
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
namespace mockturtle
{
// constants, inputs, then every node reachable from an output after all of its fanins
template <class Ntk, bool has_topo = false>
class topo_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    static constexpr bool is_topologically_sorted = true;
    topo_view(Ntk const& n) : Ntk(n) { update_topo(); }
    topo_view(Ntk const& n, signal const& start) : Ntk(n), start_(start), one_(true) { update_topo(); }
    auto size() const { return static_cast<uint32_t>(topo_.size()); }
    auto num_gates() const { return static_cast<uint32_t>(topo_.size() - num_ci_); }
    uint32_t node_to_index(node const& n) const { return Ntk::node_to_index(n); }
    template <class Fn>
    void foreach_node(Fn&& fn) const
    {
        detail::foreach_element(topo_.begin(), topo_.end(), fn);
    }
    template <class Fn>
    void foreach_node_reverse(Fn&& fn) const
    {
        detail::foreach_element(topo_.rbegin(), topo_.rend(), fn);
    }
    template <class Fn>
    void foreach_gate(Fn&& fn) const
    {
        detail::foreach_element(topo_.begin() + num_ci_, topo_.end(), fn);
    }
    template <class Fn>
    void foreach_gate_reverse(Fn&& fn) const
    {
        detail::foreach_element(topo_.rbegin(), topo_.rend() - num_ci_, fn);
    }
    void update_topo()
    {
        topo_.clear();
        state_.assign(Ntk::size() + 2, 0);
        add(this->get_node(this->get_constant(false)));
        if (this->get_node(this->get_constant(true)) != this->get_node(this->get_constant(false)))
            add(this->get_node(this->get_constant(true)));
        this->foreach_ci([this](auto n) { add(n); });
        num_ci_ = static_cast<uint32_t>(topo_.size());
        if (one_)
            rec(this->get_node(start_));
        else
            Ntk::foreach_co([this](auto f) { rec(this->get_node(f)); });
    }

  private:
    void add(node n)
    {
        if (state_[Ntk::node_to_index(n)] == 2)
            return;
        state_[Ntk::node_to_index(n)] = 2;
        topo_.push_back(n);
    }
    void rec(node n)
    {
        if (state_[Ntk::node_to_index(n)])
            return;
        state_[Ntk::node_to_index(n)] = 1;
        Ntk::foreach_fanin(n, [this](auto f) { rec(this->get_node(f)); });
        add(n);
    }
    std::vector<node>    topo_;
    std::vector<uint8_t> state_;
    uint32_t             num_ci_ = 0;
    signal               start_{};
    bool                 one_ = false;
};
template <class T>
topo_view(T const&) -> topo_view<T>;
}  // namespace mockturtle
