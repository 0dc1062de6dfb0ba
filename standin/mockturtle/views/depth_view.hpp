#ifndef STANDIN_MT_DEPTH
#define STANDIN_MT_DEPTH
#include "../traits.hpp"
#include "../utils/cost_functions.hpp"
#include <map>
namespace mockturtle
{
struct depth_view_params
{
    bool count_complements{false}, pi_cost{false};
};
template <typename Ntk, typename NodeCostFn = unit_cost<Ntk>, bool has_depth_interface = has_depth_v<Ntk> && has_level_v<Ntk> && has_update_levels_v<Ntk>> class depth_view {};
template <typename Ntk, typename F> class depth_view<Ntk, F, true> : public Ntk
{
  public:
    depth_view(const Ntk& n, depth_view_params const& = {}) : Ntk(n) {}
};
template <typename Ntk, typename F> class depth_view<Ntk, F, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit depth_view(const F& f = {}, depth_view_params const& p = {}) : Ntk(), ps(p), cost(f) {}
    explicit depth_view(const Ntk& n, const F& f = {}, depth_view_params const& p = {}) : Ntk(n), ps(p), cost(f) { update_levels(); }
    uint32_t depth() const { return d; }
    uint32_t level(const node& n) const
    {
        const auto it = levels.find(n);
        return it == levels.end() ? 0 : it->second;
    }
    bool is_on_critical_path(const node& n) const { return crit.count(n) != 0; }
    void set_level(const node& n, uint32_t l) { levels[n] = l; }
    void set_depth(uint32_t l) { d = l; }
    void update_levels()
    {
        levels.clear();
        crit.clear();
        d = 0;
        this->foreach_po([&](const auto& f) { d = std::max(d, lev(this->get_node(f)) + ((ps.count_complements && this->is_complemented(f)) ? 1u : 0u)); });
        this->foreach_po([&](const auto& f) { if (levels[this->get_node(f)] == d) mark(this->get_node(f)); });
    }

  private:
    uint32_t lev(const node& n)
    {
        if (const auto it = levels.find(n); it != levels.end()) return it->second;
        if (this->is_constant(n)) return levels[n] = 0;
        if (this->is_ci(n)) return levels[n] = ps.pi_cost ? cost(*this, n) - 1 : 0;
        uint32_t l = 0;
        this->foreach_fanin(n, [&](const auto& f) { l = std::max(l, lev(this->get_node(f)) + ((ps.count_complements && this->is_complemented(f)) ? 1u : 0u)); });
        return levels[n] = l + cost(*this, n);
    }
    void mark(const node& n)
    {
        if (crit.count(n)) return;
        crit[n] = true;
        if (this->is_constant(n) || this->is_ci(n)) return;
        this->foreach_fanin(n, [&](const auto& f) {
            if (levels[this->get_node(f)] + cost(*this, n) + ((ps.count_complements && this->is_complemented(f)) ? 1u : 0u) == levels[n]) mark(this->get_node(f));
        });
    }
    depth_view_params        ps;
    F                        cost;
    std::map<node, uint32_t> levels;
    std::map<node, bool>     crit;
    uint32_t                 d{0};
};
template <class T> depth_view(const T&) -> depth_view<T>;
template <class T, class F> depth_view(const T&, const F&, depth_view_params const&) -> depth_view<T, F>;
}  // namespace mockturtle
#endif
