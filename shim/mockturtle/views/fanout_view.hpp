#pragma once
#include <cstdint>
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
namespace mockturtle
{
struct fanout_view_params
{
    bool update_on_add = true, update_on_modified = true, update_on_delete = true;
};
template <class Ntk, bool has_fanout = false>
class fanout_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit fanout_view(fanout_view_params const& = {}) : Ntk() {}
    explicit fanout_view(Ntk const& n, fanout_view_params const& = {}) : Ntk(n) { update_fanout(); }
    template <class Fn>
    void foreach_fanout(node const& n, Fn&& fn) const
    {
        const auto& v = fo_.at(this->node_to_index(n));
        detail::foreach_element(v.begin(), v.end(), fn);
    }
    std::vector<node> fanout(node const& n) const { return fo_.at(this->node_to_index(n)); }
    void              update_fanout()
    {
        fo_.assign(Ntk::size(), {});
        this->foreach_gate(
            [this](auto const& n)
            {
                this->foreach_fanin(n,
                                    [this, &n](auto const& c)
                                    {
                                        auto& v = fo_[this->node_to_index(this->get_node(c))];
                                        bool  have = false;
                                        for (auto const& x : v)
                                            have |= x == n;
                                        if (!have)
                                            v.push_back(n);
                                    });
            });
    }

  private:
    std::vector<std::vector<node>> fo_;
};
template <class T>
fanout_view(T const&) -> fanout_view<T>;
template <class T>
fanout_view(T const&, fanout_view_params const&) -> fanout_view<T>;
}  // namespace mockturtle
