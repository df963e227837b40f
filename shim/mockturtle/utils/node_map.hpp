#pragma once
#include <cassert>
#include <memory>
#include <unordered_map>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class T, class Ntk, class Impl = std::vector<T>>
class node_map
{
  public:
    using node      = typename Ntk::node;
    using signal    = typename Ntk::signal;
    using reference = typename Impl::reference;
    using const_reference = typename Impl::const_reference;
    explicit node_map(const Ntk& n) : ntk(&n), data(std::make_shared<Impl>(n.size())) {}
    node_map(const Ntk& n, const T& init) : ntk(&n), data(std::make_shared<Impl>(n.size(), init)) {}
    reference operator[](const node& n) { return (*data)[ntk->node_to_index(n)]; }
    const_reference operator[](const node& n) const { return (*data)[ntk->node_to_index(n)]; }
    template <class N = Ntk, class = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    reference operator[](const signal& f) { return (*data)[ntk->node_to_index(ntk->get_node(f))]; }
    template <class N = Ntk, class = std::enable_if_t<!std::is_same_v<typename N::signal, typename N::node>>>
    const_reference operator[](const signal& f) const { return (*data)[ntk->node_to_index(ntk->get_node(f))]; }
    void reset(const T& init = {}) { data->assign(ntk->size(), init); }
    void resize(const T& init = {})
    {
        if (ntk->size() > data->size())
            data->resize(ntk->size(), init);
    }
    auto size() const { return data->size(); }

  private:
    const Ntk*            ntk;
    std::shared_ptr<Impl> data;
};
template <class T, class Ntk>
using unordered_node_map = node_map<T, Ntk>;
}  // namespace mockturtle
