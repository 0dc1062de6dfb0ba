#ifndef STANDIN_MT_TOPO
#define STANDIN_MT_TOPO
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
#include "immutable_view.hpp"
#include <algorithm>
#include <cassert>
#include <optional>
#include <vector>
namespace mockturtle
{
template <class Ntk, bool sorted = is_topologically_sorted_v<Ntk>> class topo_view {};
template <typename Ntk> class topo_view<Ntk, false> : public immutable_view<Ntk>
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    static constexpr bool is_topologically_sorted = true;
    topo_view(const Ntk& n) : immutable_view<Ntk>(n) { update_topo(); }
    topo_view(const Ntk& n, const signal& s) : immutable_view<Ntk>(n), start(s) { update_topo(); }
    auto     size() const { return static_cast<uint32_t>(order.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(order.size() - offset()); }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(std::distance(order.begin(), std::find(order.begin(), order.end(), n))); }
    node     index_to_node(uint32_t i) const { return order.at(i); }
    template <typename Fn> void foreach_node(Fn&& fn) const { detail::foreach_element(order.begin(), order.end(), fn); }
    template <typename Fn> void foreach_gate(Fn&& fn) const { detail::foreach_element(order.begin() + offset(), order.end(), fn); }
    template <typename Fn> void foreach_node_reverse(Fn&& fn) const { detail::foreach_element(order.rbegin(), order.rend(), fn); }
    template <typename Fn> void foreach_gate_reverse(Fn&& fn) const { detail::foreach_element(order.rbegin(), order.rend() - offset(), fn); }
    template <typename Fn> void foreach_co(Fn&& fn) const
    {
        if (start)
        {
            std::vector<signal> v(1, *start);
            detail::foreach_element(v.begin(), v.end(), fn);
        }
        else Ntk::foreach_co(fn);
    }
    template <typename Fn> void foreach_po(Fn&& fn) const
    {
        if (start)
        {
            std::vector<signal> v(1, *start);
            detail::foreach_element(v.begin(), v.end(), fn);
        }
        else Ntk::foreach_po(fn);
    }
    uint32_t num_pos() const { return start ? 1 : Ntk::num_pos(); }
    void     update_topo()
    {
        this->incr_trav_id();
        this->incr_trav_id();
        order.clear();
        const auto add = [this](node n) {
            if (this->visited(n) != this->trav_id())
            {
                order.push_back(n);
                this->set_visited(n, this->trav_id());
            }
        };
        add(this->get_node(this->get_constant(false)));
        add(this->get_node(this->get_constant(true)));
        this->foreach_ci([&](auto n) { add(n); });
        if (start) rec(this->get_node(*start));
        else Ntk::foreach_co([this](auto f) { if (this->visited(this->get_node(f)) != this->trav_id()) rec(this->get_node(f)); });
    }

  private:
    long offset() const { return 1 + static_cast<long>(this->num_pis()) + (this->get_node(this->get_constant(true)) != this->get_node(this->get_constant(false))); }
    void rec(const node& n)
    {
        if (this->visited(n) == this->trav_id()) return;
        assert(this->visited(n) != this->trav_id() - 1);
        this->set_visited(n, this->trav_id() - 1);
        this->foreach_fanin(n, [this](auto f) { rec(this->get_node(f)); });
        this->set_visited(n, this->trav_id());
        order.push_back(n);
    }
    std::vector<node>     order;
    std::optional<signal> start;
};
template <typename Ntk> class topo_view<Ntk, true> : public Ntk
{
  public:
    topo_view(const Ntk& n) : Ntk(n) {}
};
template <class T> topo_view(const T&) -> topo_view<T>;
template <class T> topo_view(const T&, const typename T::signal&) -> topo_view<T>;
}  // namespace mockturtle
#endif
