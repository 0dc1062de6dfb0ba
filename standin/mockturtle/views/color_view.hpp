#ifndef STANDIN_MT_COLOR
#define STANDIN_MT_COLOR
#include "../traits.hpp"
#include <map>
namespace mockturtle
{
template <typename Ntk> class out_of_place_color_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit out_of_place_color_view(const Ntk& n) : Ntk(n) {}
    uint32_t new_color() const { return ++value; }
    uint32_t current_color() const { return value; }
    void     clear_colors(uint32_t c = 0) const
    {
        colors.clear();
        dflt = c;
    }
    uint32_t color(const node& n) const
    {
        const auto it = colors.find(n);
        return it == colors.end() ? dflt : it->second;
    }
    uint32_t color(const signal& n) const requires(!std::is_same_v<node, signal>) { return color(this->get_node(n)); }
    void     paint(const node& n) const { colors[n] = value; }
    void     paint(const node& n, uint32_t c) const { colors[n] = c; }
    void     paint(const node& n, const node& o) const requires(!std::is_same_v<node, uint32_t>) { colors[n] = color(o); }
    template <typename P> bool eval_color(const node& n, P&& p) const { return p(color(n)); }
    template <typename P> bool eval_color(const node& a, const node& b, P&& p) const { return p(color(a), color(b)); }
    template <typename P> bool eval_fanins_color(const node& n, P&& p) const
    {
        bool r = true;
        this->foreach_fanin(n, [&](const auto& f) { if (r && !p(color(this->get_node(f)))) r = false; });
        return r;
    }

  protected:
    mutable std::map<node, uint32_t> colors;
    mutable uint32_t                 value{0}, dflt{0};
};
template <typename Ntk> using color_view = out_of_place_color_view<Ntk>;
template <class T> out_of_place_color_view(const T&) -> out_of_place_color_view<T>;
}  // namespace mockturtle
#endif
