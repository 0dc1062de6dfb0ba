#ifndef STANDIN_MT_DOT
#define STANDIN_MT_DOT
#include "../traits.hpp"
#include <fmt/format.h>
#include <fstream>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
namespace mockturtle
{
template <class Ntk> class default_dot_drawer
{
  public:
    virtual ~default_dot_drawer() = default;
    virtual std::string node_label(const Ntk& ntk, const node<Ntk>& n) const { return fmt::format("{}", ntk.node_to_index(n)); }
    virtual std::string node_shape(const Ntk& ntk, const node<Ntk>& n) const { return ntk.is_constant(n) ? "box" : ntk.is_ci(n) ? "house" : "ellipse"; }
    virtual uint32_t    node_level(const Ntk&, const node<Ntk>&) const { return 0; }
    virtual std::string po_shape(const Ntk&, uint32_t) const { return "invhouse"; }
    virtual std::string node_fillcolor(const Ntk& ntk, const node<Ntk>& n) const { return (ntk.is_constant(n) || ntk.is_ci(n)) ? "snow2" : "white"; }
    virtual std::string po_fillcolor(const Ntk&, uint32_t) const { return "snow2"; }
    virtual bool        draw_signal(const Ntk&, const node<Ntk>&, const signal<Ntk>&) const { return true; }
    virtual std::string signal_style(const Ntk& ntk, const signal<Ntk>& f) const { return ntk.is_complemented(f) ? "dashed" : "solid"; }
};
template <class Ntk> class gate_dot_drawer : public default_dot_drawer<Ntk>
{
  public:
    std::string node_label(const Ntk& ntk, const node<Ntk>& n) const override
    {
        if constexpr (has_is_and_v<Ntk>) if (ntk.is_and(n)) return "AND";
        if constexpr (has_is_or_v<Ntk>) if (ntk.is_or(n)) return "OR";
        if constexpr (has_is_xor_v<Ntk>) if (ntk.is_xor(n)) return "XOR";
        if constexpr (has_is_maj_v<Ntk>) if (ntk.is_maj(n)) return "MAJ";
        return default_dot_drawer<Ntk>::node_label(ntk, n);
    }
};
template <class Ntk, class D = default_dot_drawer<Ntk>> void write_dot(const Ntk& ntk, std::ostream& os, const D& d = {})
{
    os << "digraph {\n";
    ntk.foreach_node([&](const auto& n) { os << fmt::format("{} [label=\"{}\",shape={},fillcolor={}]\n", ntk.node_to_index(n), d.node_label(ntk, n), d.node_shape(ntk, n), d.node_fillcolor(ntk, n)); });
    ntk.foreach_node([&](const auto& n) {
        if (ntk.is_constant(n) || ntk.is_ci(n)) return;
        ntk.foreach_fanin(n, [&](const auto& f) { if (d.draw_signal(ntk, n, f)) os << fmt::format("{}->{} [style={}]\n", ntk.node_to_index(ntk.get_node(f)), ntk.node_to_index(n), d.signal_style(ntk, f)); });
    });
    ntk.foreach_po([&](const auto& f, auto i) { os << fmt::format("po{} [shape={}]\n{}->po{} [style={}]\n", i, d.po_shape(ntk, i), ntk.node_to_index(ntk.get_node(f)), i, d.signal_style(ntk, f)); });
    os << "}\n";
}
template <class Ntk, class D = default_dot_drawer<Ntk>> void write_dot(const Ntk& ntk, const std::string& file, const D& d = {})
{
    std::ofstream os(file);
    write_dot(ntk, os, d);
}
}  // namespace mockturtle
#endif
