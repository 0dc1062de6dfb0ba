#ifndef STANDIN_MT_STORAGE
#define STANDIN_MT_STORAGE
#include <array>
#include <cstdint>
#include <phmap.h>
#include <vector>
namespace mockturtle
{
union cauint64_t
{
    uint64_t n{0};
    struct
    {
        uint32_t h1, h2;
    };
};
template <int P = 0> struct node_pointer
{
    node_pointer() = default;
    node_pointer(uint64_t index, uint64_t weight) : weight(weight), index(index) {}
    union
    {
        struct
        {
            uint64_t weight : P;
            uint64_t index : 64 - P;
        };
        uint64_t data;
    };
    bool operator==(const node_pointer& o) const { return data == o.data; }
    operator uint64_t() const { return data; }
};
template <> struct node_pointer<0>
{
    node_pointer() = default;
    node_pointer(uint64_t index) : index(index) {}
    union
    {
        uint64_t index;
        uint64_t data;
    };
    bool operator==(const node_pointer& o) const { return data == o.data; }
};
template <int F, int Size = 0, int P = 0> struct regular_node
{
    using pointer_type = node_pointer<P>;
    std::array<pointer_type, F> children;
    std::array<cauint64_t, Size> data;
    bool operator==(const regular_node& o) const { return children == o.children; }
};
template <int Size = 0, int P = 0> struct mixed_fanin_node
{
    using pointer_type = node_pointer<P>;
    std::vector<pointer_type> children;
    std::array<cauint64_t, Size> data;
    bool operator==(const mixed_fanin_node& o) const { return children == o.children; }
};
template <class Node> struct node_hash
{
    std::size_t operator()(const Node& n) const
    {
        std::size_t h = 17;
        for (const auto& c : n.children) h = (h ^ c.data) * 0x9e3779b97f4a7c15ull + (h >> 29);
        return h;
    }
};
struct empty_storage_data {};
template <typename Node, typename T = empty_storage_data, typename Hash = node_hash<Node>> struct storage
{
    storage() { nodes.emplace_back(); }  // the first node is reserved for a constant
    using node_type = Node;
    std::vector<node_type>                            nodes;
    std::vector<uint64_t>                             inputs;
    std::vector<typename node_type::pointer_type>     outputs;
    phmap::flat_hash_map<node_type, uint64_t, Hash>   hash;
    T                                                 data;
};
}  // namespace mockturtle
#endif
