// AIGs, XAGs, MIGs and XMGs of the stand-in: one class over complemented edges.
#ifndef STANDIN_MT_GRAPH
#define STANDIN_MT_GRAPH
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <map>
#include <memory>
#include <optional>
#include <string>
namespace mockturtle
{
enum class standin_kind { AIG, XAG, MIG, XMG };
struct standin_signal
{
    standin_signal() = default;
    standin_signal(uint64_t index, uint64_t c) : complement(c), index(index) {}
    explicit standin_signal(uint64_t d) : data(d) {}
    union
    {
        struct
        {
            uint64_t complement : 1;
            uint64_t index : 63;
        };
        uint64_t data{0};
    };
    standin_signal operator!() const { return standin_signal(data ^ 1); }
    standin_signal operator+() const { return {index, 0}; }
    standin_signal operator-() const { return {index, 1}; }
    standin_signal operator^(bool c) const { return standin_signal(data ^ (c ? 1 : 0)); }
    bool operator==(const standin_signal& o) const { return data == o.data; }
    bool operator!=(const standin_signal& o) const { return data != o.data; }
    bool operator<(const standin_signal& o) const { return data < o.data; }
};
struct standin_gnode
{
    enum type_t : uint8_t { CONST, PI, AND, XOR, MAJ, XOR3 } type{CONST};
    std::vector<standin_signal> children{};
    uint32_t value{0}, visited{0}, fanout{0};
};
struct standin_gstorage
{
    std::vector<standin_gnode>                              nodes{1};
    std::vector<uint64_t>                                   inputs;
    std::vector<standin_signal>                             outputs;
    std::map<std::pair<int, std::vector<uint64_t>>, uint64_t> hash;
    uint32_t                                                trav_id{0};
};
template <standin_kind K> class standin_graph
{
  public:
    static constexpr auto min_fanin_size = (K == standin_kind::MIG || K == standin_kind::XMG) ? 3u : 2u;
    static constexpr auto max_fanin_size = min_fanin_size;
    using base_type = standin_graph<K>;
    using storage   = std::shared_ptr<standin_gstorage>;
    using node      = uint64_t;
    using signal    = standin_signal;
    standin_graph() : _storage(std::make_shared<standin_gstorage>()), _events(std::make_shared<network_events<base_type>>()) {}
    standin_graph(storage s) : _storage(s), _events(std::make_shared<network_events<base_type>>()) {}
    base_type clone() const { return base_type{std::make_shared<standin_gstorage>(*_storage)}; }
    signal get_constant(bool v) const { return {0, v ? 1ull : 0ull}; }
    signal create_pi(const std::string& = {})
    {
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->nodes[i].type = standin_gnode::PI;
        _storage->inputs.push_back(i);
        return {i, 0};
    }
    uint32_t create_po(const signal& f, const std::string& = {})
    {
        _storage->nodes[f.index].fanout++;
        _storage->outputs.push_back(f);
        return static_cast<uint32_t>(_storage->outputs.size() - 1);
    }
    bool is_combinational() const { return true; }
    bool is_constant(const node& n) const { return n == 0; }
    bool constant_value(const node&) const { return false; }
    bool is_ci(const node& n) const { return _storage->nodes[n].type == standin_gnode::PI; }
    bool is_pi(const node& n) const { return is_ci(n); }
    signal create_buf(const signal& a) { return a; }
    signal create_not(const signal& a) { return !a; }
    signal create_and(signal a, signal b)
    {
        if (b.index < a.index) std::swap(a, b);
        if (a.index == b.index) return a.complement == b.complement ? a : get_constant(false);
        if (a.index == 0) return a.complement ? b : get_constant(false);
        if constexpr (K == standin_kind::MIG || K == standin_kind::XMG) return mk(standin_gnode::MAJ, {get_constant(false), a, b});
        else return mk(standin_gnode::AND, {a, b});
    }
    signal create_nand(const signal& a, const signal& b) { return !create_and(a, b); }
    signal create_or(const signal& a, const signal& b)
    {
        if constexpr (K == standin_kind::MIG || K == standin_kind::XMG) return create_maj(get_constant(true), a, b);
        else return !create_and(!a, !b);
    }
    signal create_nor(const signal& a, const signal& b) { return !create_or(a, b); }
    signal create_lt(const signal& a, const signal& b) { return create_and(!a, b); }
    signal create_le(const signal& a, const signal& b) { return !create_and(a, !b); }
    signal create_xor(signal a, signal b)
    {
        if constexpr (K == standin_kind::XAG || K == standin_kind::XMG)
        {
            const bool c = a.complement != b.complement;
            a = +a; b = +b;
            if (b.index < a.index) std::swap(a, b);
            if (a.index == b.index) return get_constant(c);
            if (a.index == 0) return b ^ c;
            if constexpr (K == standin_kind::XMG) return mk(standin_gnode::XOR3, {get_constant(false), a, b}) ^ c;
            else return mk(standin_gnode::XOR, {a, b}) ^ c;
        }
        else
        {
            const auto c1 = create_and(+a, -b), c2 = create_and(+b, -a);
            const bool c = a.complement != b.complement;
            return create_and(!c1, !c2) ^ !c;
        }
    }
    signal create_xnor(const signal& a, const signal& b) { return !create_xor(a, b); }
    signal create_ite(signal c, signal t, signal e) { return !create_and(!create_and(c, t), !create_and(!c, e)); }
    signal create_maj(signal a, signal b, signal c)
    {
        if constexpr (K == standin_kind::MIG || K == standin_kind::XMG)
        {
            std::array<signal, 3> v{a, b, c};
            std::sort(v.begin(), v.end(), [](auto x, auto y) { return x.index < y.index; });
            if (v[0].index == v[1].index) return v[0].complement == v[1].complement ? v[0] : v[2];
            if (v[1].index == v[2].index) return v[1].complement == v[2].complement ? v[1] : v[0];
            const bool inv = v[0].complement + v[1].complement + v[2].complement >= 2;
            if (inv) for (auto& x : v) x = !x;
            return mk(standin_gnode::MAJ, {v[0], v[1], v[2]}) ^ inv;
        }
        else return create_or(create_and(a, b), create_and(c, create_or(a, b)));
    }
    signal create_xor3(const signal& a, const signal& b, const signal& c) { return create_xor(create_xor(a, b), c); }
    signal create_nary_and(const std::vector<signal>& fs) { return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return create_and(a, b); }); }
    signal create_nary_or(const std::vector<signal>& fs) { return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); }); }
    signal create_nary_xor(const std::vector<signal>& fs) { return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_xor(a, b); }); }
    signal clone_node(const base_type& o, const node& s, const std::vector<signal>& ch)
    {
        switch (o._storage->nodes[s].type)
        {
            case standin_gnode::AND: return create_and(ch.at(0), ch.at(1));
            case standin_gnode::XOR: return create_xor(ch.at(0), ch.at(1));
            case standin_gnode::MAJ: return create_maj(ch.at(0), ch.at(1), ch.at(2));
            default: return create_xor3(ch.at(0), ch.at(1), ch.at(2));
        }
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 1); }
    uint32_t num_registers() const { return 0; }
    uint32_t fanin_size(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(const node& n) const { return _storage->nodes[n].fanout; }
    uint32_t incr_fanout_size(const node& n) const { return _storage->nodes[n].fanout++; }
    uint32_t decr_fanout_size(const node& n) const { return --_storage->nodes[n].fanout; }
    bool is_dead(const node&) const { return false; }
    bool is_and(const node& n) const { return _storage->nodes[n].type == standin_gnode::AND; }
    bool is_or(const node&) const { return false; }
    bool is_xor(const node& n) const { return _storage->nodes[n].type == standin_gnode::XOR; }
    bool is_maj(const node& n) const { return _storage->nodes[n].type == standin_gnode::MAJ; }
    bool is_ite(const node&) const { return false; }
    bool is_xor3(const node& n) const { return _storage->nodes[n].type == standin_gnode::XOR3; }
    bool is_nary_and(const node&) const { return false; }
    bool is_nary_or(const node&) const { return false; }
    bool is_nary_xor(const node&) const { return false; }
    kitty::dynamic_truth_table node_function(const node& n) const
    {
        const auto t = _storage->nodes[n].type;
        kitty::dynamic_truth_table f(t == standin_gnode::AND || t == standin_gnode::XOR ? 2 : 3);
        f._bits[0] = t == standin_gnode::AND ? 0x8 : t == standin_gnode::XOR ? 0x6 : t == standin_gnode::MAJ ? 0xe8 : 0x96;
        return f;
    }
    node     get_node(const signal& f) const { return f.index; }
    signal   make_signal(const node& n) const { return {n, 0}; }
    bool     is_complemented(const signal& f) const { return f.complement; }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i); }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i); }
    uint32_t pi_index(const node& n) const { return static_cast<uint32_t>(std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin()); }
    uint32_t ci_index(const node& n) const { return pi_index(n); }
    template <typename Fn> void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element<decltype(r.begin()), node>(r.begin(), r.end(), fn);
    }
    template <typename Fn> void foreach_ci(Fn&& fn) const { detail::foreach_element<std::vector<uint64_t>::const_iterator, node>(_storage->inputs.cbegin(), _storage->inputs.cend(), fn); }
    template <typename Fn> void foreach_co(Fn&& fn) const { detail::foreach_element<std::vector<signal>::const_iterator, signal>(_storage->outputs.cbegin(), _storage->outputs.cend(), fn); }
    template <typename Fn> void foreach_pi(Fn&& fn) const { foreach_ci(fn); }
    template <typename Fn> void foreach_po(Fn&& fn) const { foreach_co(fn); }
    template <typename Fn> void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(1u, _storage->nodes.size());
        detail::foreach_element_if<decltype(r.begin()), node>(r.begin(), r.end(), [this](auto n) { return !is_ci(n); }, fn);
    }
    template <typename Fn> void foreach_fanin(const node& n, Fn&& fn) const
    {
        const auto ch = _storage->nodes[n].children;
        detail::foreach_element<std::vector<signal>::const_iterator, signal>(ch.cbegin(), ch.cend(), fn);
    }
    template <typename It> iterates_over_t<It, bool> compute(const node& n, It b, It e) const
    {
        std::vector<bool> v;
        for (std::size_t k = 0; b != e; ++b, ++k) v.push_back(*b != (_storage->nodes[n].children[k].complement != 0));
        uint64_t p = 0;
        for (std::size_t k = 0; k < v.size(); ++k) p |= static_cast<uint64_t>(v[k]) << k;
        return kitty::get_bit(node_function(n), p);
    }
    template <typename It> iterates_over_truth_table_t<It> compute(const node& n, It b, It e) const
    {
        std::vector<typename std::iterator_traits<It>::value_type> t;
        for (std::size_t k = 0; b != e; ++b, ++k) t.push_back(_storage->nodes[n].children[k].complement ? ~*b : *b);
        auto r = t.front().construct();
        const auto g = node_function(n);
        for (uint64_t i = 0; i < r.num_bits(); ++i)
        {
            uint64_t p = 0;
            for (std::size_t j = 0; j < t.size(); ++j) p |= kitty::get_bit(t[j], i) << j;
            if (kitty::get_bit(g, p)) kitty::set_bit(r, i);
        }
        return r;
    }
    void     clear_values() const { for (auto& n : _storage->nodes) n.value = 0; }
    auto     value(const node& n) const { return _storage->nodes[n].value; }
    void     set_value(const node& n, uint32_t v) const { _storage->nodes[n].value = v; }
    auto     incr_value(const node& n) const { return _storage->nodes[n].value++; }
    auto     decr_value(const node& n) const { return --_storage->nodes[n].value; }
    void     clear_visited() const { for (auto& n : _storage->nodes) n.visited = 0; }
    auto     visited(const node& n) const { return _storage->nodes[n].visited; }
    void     set_visited(const node& n, uint32_t v) const { _storage->nodes[n].visited = v; }
    uint32_t trav_id() const { return _storage->trav_id; }
    void     incr_trav_id() const { ++_storage->trav_id; }
    auto&    events() const { return *_events; }
    storage                                    _storage;
    std::shared_ptr<network_events<base_type>> _events;

  private:
    signal mk(standin_gnode::type_t t, std::vector<signal> ch)
    {
        std::pair<int, std::vector<uint64_t>> key{t, {}};
        for (auto& c : ch) key.second.push_back(c.data);
        if (const auto it = _storage->hash.find(key); it != _storage->hash.end()) return {it->second, 0};
        const auto i = _storage->nodes.size();
        for (auto& c : ch) _storage->nodes[c.index].fanout++;
        _storage->nodes.push_back({t, std::move(ch)});
        _storage->hash[key] = i;
        for (auto const& fn : _events->on_add) (*fn)(i);
        return {i, 0};
    }
};
using aig_network = standin_graph<standin_kind::AIG>;
using xag_network = standin_graph<standin_kind::XAG>;
using mig_network = standin_graph<standin_kind::MIG>;
using xmg_network = standin_graph<standin_kind::XMG>;
}  // namespace mockturtle
#endif
