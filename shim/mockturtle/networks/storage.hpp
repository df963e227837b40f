#pragma once
#include <array>
#include <compare>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include "../../vx_phmap.hpp"
namespace mockturtle
{
template <int PointerFieldSize = 0>
struct node_pointer
{
    node_pointer() = default;
    node_pointer(uint64_t index_, uint64_t weight_) : weight(weight_), index(index_) {}
    union
    {
        struct
        {
            uint64_t weight : PointerFieldSize;
            uint64_t index : (64 - PointerFieldSize);
        };
        uint64_t data{0};
    };
    node_pointer(uint64_t d) : data(d) {}
    bool operator==(const node_pointer& o) const { return data == o.data; }
    bool operator==(uint64_t o) const { return data == o; }
    operator uint64_t() const { return data; }
};
template <>
struct node_pointer<0>
{
    node_pointer() = default;
    node_pointer(uint64_t i) : index(i) {}
    uint64_t index{0};
    bool     operator==(const node_pointer& o) const { return index == o.index; }
    auto     operator<=>(const node_pointer& o) const { return index <=> o.index; }
};
union cauint64_t
{
    uint64_t n{0};
    struct
    {
        uint64_t h1 : 32;
        uint64_t h2 : 32;
    };
};
template <int Size = 0, int PointerFieldSize = 0>
struct mixed_fanin_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::vector<pointer_type>    children;
    std::array<cauint64_t, Size> data;
    bool operator==(const mixed_fanin_node& o) const { return children == o.children; }
};
template <int Fanin, int Size = 0, int PointerFieldSize = 0>
struct regular_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::array<pointer_type, Fanin> children;
    std::array<cauint64_t, Size>    data;
    bool operator==(const regular_node& o) const { return children == o.children; }
};
struct empty_storage_data
{};
template <class Node, class StorageData = empty_storage_data>
struct storage
{
    using node_type = Node;
    storage() { nodes.emplace_back(); }
    std::vector<Node>                           nodes;
    std::vector<uint64_t>                       inputs;
    std::vector<typename Node::pointer_type>    outputs;
    StorageData                                 data;
};
}  // namespace mockturtle
