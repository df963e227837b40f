// Stand-in for mockturtle's out-of-place colours of nodes.
#pragma once
#include <algorithm>
#include <cstdint>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class out_of_place_color_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit out_of_place_color_view(Ntk const& n) : Ntk(n), values(n.size()) {}
    uint32_t new_color() const { return ++value; }
    uint32_t current_color() const { return value; }
    void     clear_colors(uint32_t c = 0) const { std::for_each(values.begin(), values.end(), [c](auto& v) { v = c; }); }
    uint32_t color(node const& n) const { return values.at(this->node_to_index(n)); }
    void     paint(node const& n) const { values.at(this->node_to_index(n)) = value; }
    void     paint(node const& n, uint32_t c) const { values.at(this->node_to_index(n)) = c; }
    void     paint(node const& n, node const& o) const { values.at(this->node_to_index(n)) = values.at(this->node_to_index(o)); }
    template <class Pred>
    bool eval_color(node const& n, Pred&& p) const
    {
        return p(color(n));
    }
    template <class Pred>
    bool eval_color(node const& a, node const& b, Pred&& p) const
    {
        return p(color(a), color(b));
    }

  protected:
    mutable std::vector<uint32_t> values;
    mutable uint32_t              value{0};
};
}  // namespace mockturtle
