#ifndef STANDIN_MT_NODE_MAP
#define STANDIN_MT_NODE_MAP
#include "../traits.hpp"
#include <cassert>
#include <memory>
#include <unordered_map>
#include <vector>
namespace mockturtle
{
template <class T, class Ntk, class Impl = std::vector<T>> class node_map
{
  public:
    using node      = typename Ntk::node;
    using signal    = typename Ntk::signal;
    using reference = typename std::vector<T>::reference;
    using const_reference = typename std::vector<T>::const_reference;
    explicit node_map(const Ntk& n) : ntk(&n), data(std::make_shared<std::vector<T>>(n.size())) {}
    node_map(const Ntk& n, const T& init) : ntk(&n), data(std::make_shared<std::vector<T>>(n.size(), init)) {}
    template <class S, typename = std::enable_if_t<!std::is_same_v<S, T>>> node_map(const Ntk& n, const S& s) : ntk(&n), data(std::make_shared<std::vector<T>>(n.size(), T(s))) {}
    auto size() const { return ntk->size(); }
    reference operator[](const node& n) { return at_(ntk->node_to_index(n)); }
    const_reference operator[](const node& n) const { return at_(ntk->node_to_index(n)); }
    template <typename U, typename = std::enable_if_t<!std::is_same_v<typename Ntk::node, typename Ntk::signal> && std::is_same_v<U, typename Ntk::signal>>>
    reference operator[](const U& s) { return at_(ntk->node_to_index(ntk->get_node(s))); }
    template <typename U, typename = std::enable_if_t<!std::is_same_v<typename Ntk::node, typename Ntk::signal> && std::is_same_v<U, typename Ntk::signal>>>
    const_reference operator[](const U& s) const { return at_(ntk->node_to_index(ntk->get_node(s))); }
    bool has(const node&) const { return true; }
    void reset(const T& init = {})
    {
        data->assign(ntk->size(), init);
    }
    void resize(const T& init = {})
    {
        if (ntk->size() > data->size()) data->resize(ntk->size(), init);
    }

  private:
    reference at_(std::size_t i) const
    {
        assert(i < data->size() && "index out of bounds");
        return (*data)[i];
    }
    const Ntk*                      ntk;
    std::shared_ptr<std::vector<T>> data;
};
template <class T, class Ntk> using unordered_node_map = node_map<T, Ntk>;
template <class T, class Ntk> using incomplete_node_map = node_map<T, Ntk>;
}  // namespace mockturtle
#endif
