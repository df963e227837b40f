// Stand-in for mockturtle's k-LUT network.
#pragma once
#include <algorithm>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "../utils/truth_table_cache.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
namespace mockturtle
{
struct klut_storage_data
{
    truth_table_cache<kitty::dynamic_truth_table> cache;
    uint32_t                                      trav_id = 0u;
};
struct klut_storage_node : mixed_fanin_node<2>
{
    bool operator==(const klut_storage_node& o) const { return data[1].h1 == o.data[1].h1 && children == o.children; }
};
using klut_storage = storage<klut_storage_node, klut_storage_data>;

template <class Ntk>
struct vx_events64
{
    std::vector<std::shared_ptr<std::function<void(const uint64_t&)>>>                               on_add;
    std::vector<std::shared_ptr<std::function<void(const uint64_t&, const std::vector<uint64_t>&)>>> on_modified;
    std::vector<std::shared_ptr<std::function<void(const uint64_t&)>>>                               on_delete;
};

class klut_network
{
  public:
    static constexpr auto min_fanin_size = 1;
    static constexpr auto max_fanin_size = 32;
    using base_type = klut_network;
    using storage   = std::shared_ptr<klut_storage>;
    using node      = uint64_t;
    using signal    = uint64_t;

    klut_network() : _storage(std::make_shared<klut_storage>()), _events(std::make_shared<vx_events64<base_type>>()) { _init(); }
    klut_network(std::shared_ptr<klut_storage> s) : _storage(std::move(s)), _events(std::make_shared<vx_events64<base_type>>()) {}
    klut_network clone() const { return {std::make_shared<klut_storage>(*_storage)}; }

    signal get_constant(bool v = false) const { return v ? 1 : 0; }
    signal create_pi()
    {
        const auto index = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.emplace_back(index);
        _storage->nodes[index].data[1].h1 = 2;
        return index;
    }
    uint32_t create_po(const signal& f)
    {
        _storage->nodes[f].data[0].h1++;
        const auto i = static_cast<uint32_t>(_storage->outputs.size());
        _storage->outputs.emplace_back(f);
        return i;
    }
    bool is_combinational() const { return true; }
    bool is_constant(const node& n) const { return n <= 1; }
    bool constant_value(const node& n) const { return n == 1; }
    bool is_ci(const node& n) const { return std::find(_storage->inputs.begin(), _storage->inputs.end(), n) != _storage->inputs.end(); }
    bool is_pi(const node& n) const { return is_ci(n); }
    signal create_buf(const signal& a) { return a; }
    signal create_not(const signal& a) { return _create_node({a}, 3); }
    signal create_and(signal a, signal b) { return _create_node({a, b}, 4); }
    signal create_nand(signal a, signal b) { return _create_node({a, b}, 5); }
    signal create_or(signal a, signal b) { return _create_node({a, b}, 6); }
    signal create_lt(signal a, signal b) { return _create_node({a, b}, 8); }
    signal create_le(signal a, signal b) { return _create_node({a, b}, 11); }
    signal create_xor(signal a, signal b) { return _create_node({a, b}, 12); }
    signal create_maj(signal a, signal b, signal c) { return _create_node({a, b, c}, 14); }
    signal create_ite(signal a, signal b, signal c) { return _create_node({a, b, c}, 16); }
    signal create_xor3(signal a, signal b, signal c) { return _create_node({a, b, c}, 18); }
    signal create_nary_or(const std::vector<signal>& fs)
    {
        auto o = get_constant(false);
        for (auto f : fs)
            o = create_or(o, f);
        return o;
    }
    signal _create_node(const std::vector<signal>& children, uint32_t literal)
    {
        klut_storage_node nd;
        std::copy(children.begin(), children.end(), std::back_inserter(nd.children));
        nd.data[1].h1    = literal;
        const auto index = _storage->nodes.size();
        _storage->nodes.push_back(nd);
        for (auto c : children)
            _storage->nodes[c].data[0].h1++;
        for (auto const& fn : _events->on_add)
            (*fn)(index);
        return index;
    }
    signal create_node(const std::vector<signal>& children, const kitty::dynamic_truth_table& function)
    {
        if (children.empty())
            return get_constant(!kitty::is_const0(function));
        return _create_node(children, _storage->data.cache.insert(function));
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 2); }
    uint32_t num_registers() const { return 0; }
    uint32_t fanin_size(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1; }
    uint32_t incr_fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1++; }
    uint32_t decr_fanout_size(const node& n) const { return --_storage->nodes[n].data[0].h1; }
    bool     is_function(const node& n) const { return n > 1 && !is_ci(n); }
    bool     is_dead(const node&) const { return false; }
    kitty::dynamic_truth_table node_function(const node& n) const { return _storage->data.cache[_storage->nodes[n].data[1].h1]; }
    node     get_node(const signal& f) const { return f; }
    signal   make_signal(const node& n) const { return n; }
    bool     is_complemented(const signal&) const { return false; }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs[i]; }
    signal   co_at(uint32_t i) const { return _storage->outputs[i].index; }
    node     pi_at(uint32_t i) const { return _storage->inputs[i]; }
    signal   po_at(uint32_t i) const { return _storage->outputs[i].index; }
    uint32_t pi_index(const node& n) const { return static_cast<uint32_t>(std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin()); }
    uint32_t ci_index(const node& n) const { return pi_index(n); }

    template <class Fn>
    void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element(r.begin(), r.end(), fn);
    }
    template <class Fn>
    void foreach_ci(Fn&& fn) const
    {
        detail::foreach_element(_storage->inputs.begin(), _storage->inputs.end(), fn);
    }
    template <class Fn>
    void foreach_pi(Fn&& fn) const
    {
        foreach_ci(fn);
    }
    template <class Fn>
    void foreach_co(Fn&& fn) const
    {
        using It = decltype(_storage->outputs.begin());
        detail::foreach_element_transform<It, signal>(_storage->outputs.begin(), _storage->outputs.end(), [](auto o) { return o.index; }, fn);
    }
    template <class Fn>
    void foreach_po(Fn&& fn) const
    {
        foreach_co(fn);
    }
    template <class Fn>
    void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(2u, _storage->nodes.size());
        detail::foreach_element_if(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <class Fn>
    void foreach_fanin(const node& n, Fn&& fn) const
    {
        if (n == 0 || is_ci(n))
            return;
        using It = decltype(_storage->nodes[n].children.cbegin());
        detail::foreach_element_transform<It, signal>(_storage->nodes[n].children.cbegin(), _storage->nodes[n].children.cend(), [](auto f) { return f.index; }, fn);
    }
    template <class It>
    iterates_over_truth_table_t<It> compute(const node& n, It begin, It end) const
    {
        std::vector<typename It::value_type> tts(begin, end);
        auto                                 result  = tts.front().construct();
        const auto                           gate_tt = _storage->data.cache[_storage->nodes[n].data[1].h1];
        for (uint64_t i = 0; i < result.num_bits(); ++i)
        {
            uint64_t p = 0;
            for (std::size_t j = 0; j < tts.size(); ++j)
                p |= static_cast<uint64_t>(kitty::get_bit(tts[j], i)) << j;
            if (kitty::get_bit(gate_tt, p))
                kitty::set_bit(result, i);
        }
        return result;
    }
    void     clear_values() const { for (auto& n : _storage->nodes) n.data[0].h2 = 0; }
    uint32_t value(const node& n) const { return _storage->nodes[n].data[0].h2; }
    void     set_value(const node& n, uint32_t v) const { _storage->nodes[n].data[0].h2 = v; }
    uint32_t incr_value(const node& n) const { return _storage->nodes[n].data[0].h2++; }
    uint32_t decr_value(const node& n) const { return --_storage->nodes[n].data[0].h2; }
    void     clear_visited() const { for (auto& n : _storage->nodes) n.data[1].h2 = 0; }
    uint32_t visited(const node& n) const { return _storage->nodes[n].data[1].h2; }
    void     set_visited(const node& n, uint32_t v) const { _storage->nodes[n].data[1].h2 = v; }
    uint32_t trav_id() const { return _storage->data.trav_id; }
    void     incr_trav_id() const { ++_storage->data.trav_id; }
    auto&    events() const { return *_events; }

  private:
    void _init()
    {
        _storage->nodes.emplace_back();
        auto& c = _storage->data.cache;
        c.insert(kitty::dynamic_truth_table(0u));
        _storage->nodes[0].data[1].h1 = 0;
        _storage->nodes[1].data[1].h1 = 1;
        auto add = [&c](uint64_t w, uint32_t n)
        {
            kitty::dynamic_truth_table tt(n);
            kitty::create_from_words(tt, &w, &w + 1);
            c.insert(tt);
        };
        add(0x1, 1);
        add(0x8, 2);
        add(0xe, 2);
        add(0x2, 2);
        add(0xb, 2);
        add(0x6, 2);
        add(0xe8, 3);
        add(0xd8, 3);
        add(0x96, 3);
    }

  public:
    std::shared_ptr<klut_storage>           _storage;
    std::shared_ptr<vx_events64<base_type>> _events;
};
}  // namespace mockturtle
