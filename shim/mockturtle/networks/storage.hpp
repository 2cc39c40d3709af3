#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include <vector>
#include <phmap.h>
namespace mockturtle
{
template <int PointerFieldSize = 0>
struct node_pointer
{
    node_pointer() = default;
    node_pointer(uint64_t index_, uint64_t weight_) : weight(weight_), index(index_) {}
    explicit node_pointer(uint64_t d) { data = d; }
    union
    {
        struct
        {
            uint64_t weight : PointerFieldSize;
            uint64_t index : 64 - PointerFieldSize;
        };
        uint64_t data{0};
    };
    bool operator==(const node_pointer& o) const { return data == o.data; }
};
template <>
struct node_pointer<0>
{
    node_pointer() = default;
    node_pointer(uint64_t i) : index(i) {}
    uint64_t index{0};
    bool operator==(const node_pointer& o) const { return index == o.index; }
};
union cauint64_t
{
    uint64_t n{0};
    struct
    {
        uint64_t h1 : 32;
        uint64_t h2 : 32;
    };
};
template <int Fanin, int Size = 0, int PointerFieldSize = 0>
struct regular_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::array<pointer_type, Fanin> children;
    std::array<cauint64_t, Size>    data;
    bool operator==(const regular_node& o) const { return children == o.children; }
};
template <int Size = 0, int PointerFieldSize = 0>
struct mixed_fanin_node
{
    using pointer_type = node_pointer<PointerFieldSize>;
    std::vector<pointer_type>    children;
    std::array<cauint64_t, Size> data;
    bool operator==(const mixed_fanin_node& o) const { return children == o.children; }
};
struct empty_storage_data
{};
template <typename Node, typename T = empty_storage_data>
struct storage
{
    storage() { nodes.emplace_back(); }
    using node_type = Node;
    std::vector<node_type>                        nodes;
    std::vector<uint64_t>                         inputs;
    std::vector<typename node_type::pointer_type> outputs;
    uint32_t                                      trav_id = 0u;
    T                                             data;
};
}  // namespace mockturtle
