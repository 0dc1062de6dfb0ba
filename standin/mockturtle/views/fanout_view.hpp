#ifndef STANDIN_MT_FANOUT
#define STANDIN_MT_FANOUT
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
#include "../networks/events.hpp"
#include <algorithm>
#include <map>
#include <vector>
namespace mockturtle
{
struct fanout_view_params
{
    bool update_on_add{true}, update_on_modified{true}, update_on_delete{true};
};
template <typename Ntk, bool has_fanout_interface = has_foreach_fanout_v<Ntk>> class fanout_view {};
template <typename Ntk> class fanout_view<Ntk, true> : public Ntk
{
  public:
    fanout_view(const Ntk& n, fanout_view_params = {}) : Ntk(n) {}
};
template <typename Ntk> class fanout_view<Ntk, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    fanout_view(fanout_view_params = {}) : Ntk() { compute(); reg(); }
    fanout_view(const Ntk& n, fanout_view_params = {}) : Ntk(n) { compute(); reg(); }
    fanout_view(const fanout_view& o) : Ntk(o) { compute(); reg(); }
    fanout_view& operator=(const fanout_view& o)
    {
        if (add_event) Ntk::events().release_add_event(add_event);
        Ntk::operator=(o);
        compute();
        reg();
        return *this;
    }
    ~fanout_view() { if (add_event) Ntk::events().release_add_event(add_event); }
    template <typename Fn> void foreach_fanout(const node& n, Fn&& fn) const
    {
        const auto f = fanout(n);
        detail::foreach_element(f.begin(), f.end(), fn);
    }
    void update_fanout() { compute(); }
    std::vector<node> fanout(const node& n) const
    {
        const auto it = fo.find(n);
        return it == fo.end() ? std::vector<node>{} : it->second;
    }

  private:
    void reg()
    {
        add_event = Ntk::events().register_add_event([this](const auto& n) { Ntk::foreach_fanin(n, [&](const auto& f) { fo[this->get_node(f)].push_back(n); }); });
    }
    void compute()
    {
        fo.clear();
        this->foreach_gate([&](const auto& n) {
            this->foreach_fanin(n, [&](const auto& c) {
                auto& v = fo[this->get_node(c)];
                if (std::find(v.begin(), v.end(), n) == v.end()) v.push_back(n);
            });
        });
    }
    std::map<node, std::vector<node>> fo;
    std::shared_ptr<typename network_events<typename Ntk::base_type>::add_event_type> add_event;
};
template <class T> fanout_view(const T&, fanout_view_params const& = {}) -> fanout_view<T>;
}  // namespace mockturtle
#endif
