#ifndef STANDIN_MT_KLUT
#define STANDIN_MT_KLUT
#include "../traits.hpp"
#include "../utils/algorithm.hpp"
#include "../utils/truth_table_cache.hpp"
#include "detail/foreach.hpp"
#include "events.hpp"
#include "storage.hpp"
#include <algorithm>
#include <cassert>
#include <memory>
#include <optional>
#include <string>
namespace mockturtle
{
struct klut_storage_data
{
    truth_table_cache<kitty::dynamic_truth_table> cache;
    uint32_t                                      trav_id = 0u;
};
struct klut_storage_node : mixed_fanin_node<2>
{
    bool operator==(const klut_storage_node& o) const { return data[1].h1 == o.data[1].h1 && children == o.children; }
};
struct klut_node_hash
{
    std::size_t operator()(const klut_storage_node& n) const { return node_hash<klut_storage_node>{}(n) * 31 + n.data[1].h1; }
};
using klut_storage = storage<klut_storage_node, klut_storage_data, klut_node_hash>;
class klut_network
{
  public:
    static constexpr auto min_fanin_size = 1;
    static constexpr auto max_fanin_size = 32;
    using base_type = klut_network;
    using storage   = std::shared_ptr<klut_storage>;
    using node      = uint64_t;
    using signal    = uint64_t;
    klut_network() : _storage(std::make_shared<klut_storage>()), _events(std::make_shared<decltype(_events)::element_type>()) { init(); }
    klut_network(std::shared_ptr<klut_storage> s) : _storage(s), _events(std::make_shared<decltype(_events)::element_type>()) {}
    klut_network clone() const { return klut_network{std::make_shared<klut_storage>(*_storage)}; }

  protected:
    void init()
    {
        _storage->nodes.emplace_back();  // second constant
        const auto add = [this](uint64_t w, uint32_t n) {
            kitty::dynamic_truth_table t(n);
            kitty::create_from_words(t, &w, &w + 1);
            _storage->data.cache.insert(t);
        };
        add(0, 0);
        _storage->nodes[0].data[1].h1 = 0;
        _storage->nodes[1].data[1].h1 = 1;
        add(0x1, 1);
        add(0x8, 2);
        add(0xe, 2);
        add(0x4, 2);
        add(0xd, 2);
        add(0x6, 2);
        add(0xe8, 3);
        add(0xd8, 3);
        add(0x96, 3);
    }

  public:
    signal get_constant(bool v = false) const { return v ? 1 : 0; }
    bool   constant_value(const node& n) const { return n == 1; }
    signal create_pi(const std::string& = {})
    {
        const auto i = _storage->nodes.size();
        _storage->nodes.emplace_back();
        _storage->inputs.emplace_back(i);
        _storage->nodes[i].data[1].h1 = 2;
        return i;
    }
    uint32_t create_po(const signal& f, const std::string& = {})
    {
        _storage->nodes[f].data[0].h1++;
        const auto i = static_cast<uint32_t>(_storage->outputs.size());
        _storage->outputs.emplace_back(f);
        return i;
    }
    bool   is_combinational() const { return true; }
    bool   is_constant(const node& n) const { return n <= 1; }
    bool   is_ci(const node& n) const { return std::find(_storage->inputs.begin(), _storage->inputs.end(), n) != _storage->inputs.end(); }
    bool   is_pi(const node& n) const { return is_ci(n); }
    signal create_buf(const signal& a) { return _create_node({a}, 2); }
    signal create_not(const signal& a) { return _create_node({a}, 3); }
    signal create_and(signal a, signal b) { return _create_node({a, b}, 4); }
    signal create_nand(signal a, signal b) { return _create_node({a, b}, 5); }
    signal create_or(signal a, signal b) { return _create_node({a, b}, 6); }
    signal create_lt(signal a, signal b) { return _create_node({a, b}, 8); }
    signal create_le(signal a, signal b) { return _create_node({a, b}, 11); }
    signal create_xor(signal a, signal b) { return _create_node({a, b}, 12); }
    signal create_maj(signal a, signal b, signal c) { return _create_node({a, b, c}, 14); }
    signal create_ite(signal a, signal b, signal c) { return _create_node({a, b, c}, 16); }
    signal create_xor3(signal a, signal b, signal c) { return _create_node({a, b, c}, 18); }
    signal create_nary_and(const std::vector<signal>& fs) { return tree_reduce(fs.begin(), fs.end(), get_constant(true), [this](auto const& a, auto const& b) { return create_and(a, b); }); }
    signal create_nary_or(const std::vector<signal>& fs) { return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_or(a, b); }); }
    signal create_nary_xor(const std::vector<signal>& fs) { return tree_reduce(fs.begin(), fs.end(), get_constant(false), [this](auto const& a, auto const& b) { return create_xor(a, b); }); }
    signal _create_node(const std::vector<signal>& children, uint32_t literal)
    {
        klut_storage_node n;
        std::copy(children.begin(), children.end(), std::back_inserter(n.children));
        n.data[1].h1  = literal;
        const auto it = _storage->hash.find(n);
        if (it != _storage->hash.end()) return it->second;
        const auto i = _storage->nodes.size();
        _storage->nodes.push_back(n);
        _storage->hash[n] = i;
        for (auto c : children) _storage->nodes[c].data[0].h1++;
        set_value(i, 0);
        for (auto const& fn : _events->on_add) (*fn)(i);
        return i;
    }
    signal create_node(const std::vector<signal>& children, const kitty::dynamic_truth_table& f)
    {
        if (children.empty()) return get_constant(!kitty::is_const0(f));
        return _create_node(children, _storage->data.cache.insert(f));
    }
    signal clone_node(const klut_network& o, const node& src, const std::vector<signal>& children)
    {
        return create_node(children, o._storage->data.cache[o._storage->nodes[src].data[1].h1]);
    }
    void substitute_node(const node& o, const signal& nw)
    {
        for (auto i = 0u; i < _storage->nodes.size(); ++i)
            for (auto& c : _storage->nodes[i].children)
                if (c.index == o)
                {
                    c = nw;
                    _storage->nodes[nw].data[0].h1++;
                    --_storage->nodes[o].data[0].h1;
                }
        for (auto& p : _storage->outputs)
            if (p.index == o)
            {
                p = nw;
                _storage->nodes[nw].data[0].h1++;
                --_storage->nodes[o].data[0].h1;
            }
    }
    auto     size() const { return static_cast<uint32_t>(_storage->nodes.size()); }
    auto     num_cis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_cos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_pis() const { return static_cast<uint32_t>(_storage->inputs.size()); }
    auto     num_pos() const { return static_cast<uint32_t>(_storage->outputs.size()); }
    auto     num_gates() const { return static_cast<uint32_t>(_storage->nodes.size() - _storage->inputs.size() - 2); }
    uint32_t num_registers() const { return 0; }
    uint32_t fanin_size(const node& n) const { return static_cast<uint32_t>(_storage->nodes[n].children.size()); }
    uint32_t fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1 & 0x7FFFFFFFu; }
    uint32_t incr_fanout_size(const node& n) const { return _storage->nodes[n].data[0].h1++ & 0x7FFFFFFFu; }
    uint32_t decr_fanout_size(const node& n) const { return --_storage->nodes[n].data[0].h1 & 0x7FFFFFFFu; }
    bool     is_function(const node& n) const { return n > 1 && !is_ci(n); }
    bool     is_dead(const node& n) const { return (_storage->nodes[n].data[0].h1 >> 31) & 1; }
    kitty::dynamic_truth_table node_function(const node& n) const { return _storage->data.cache[_storage->nodes[n].data[1].h1]; }
    node     get_node(const signal& f) const { return f; }
    signal   make_signal(const node& n) const { return n; }
    bool     is_complemented(const signal&) const { return false; }
    uint32_t node_to_index(const node& n) const { return static_cast<uint32_t>(n); }
    node     index_to_node(uint32_t i) const { return i; }
    node     ci_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   co_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    node     pi_at(uint32_t i) const { return _storage->inputs.at(i); }
    signal   po_at(uint32_t i) const { return _storage->outputs.at(i).index; }
    uint32_t pi_index(const node& n) const { return static_cast<uint32_t>(std::find(_storage->inputs.begin(), _storage->inputs.end(), n) - _storage->inputs.begin()); }
    uint32_t ci_index(const node& n) const { return pi_index(n); }
    template <typename Fn> void foreach_node(Fn&& fn) const
    {
        auto r = range<uint64_t>(_storage->nodes.size());
        detail::foreach_element_if<decltype(r.begin()), node>(r.begin(), r.end(), [this](auto n) { return !is_dead(n); }, fn);
    }
    template <typename Fn> void foreach_ci(Fn&& fn) const { detail::foreach_element<std::vector<uint64_t>::const_iterator, node>(_storage->inputs.cbegin(), _storage->inputs.cend(), fn); }
    template <typename Fn> void foreach_co(Fn&& fn) const
    {
        detail::foreach_element_transform<decltype(_storage->outputs.cbegin()), signal>(_storage->outputs.cbegin(), _storage->outputs.cend(), [](auto o) { return o.index; }, fn);
    }
    template <typename Fn> void foreach_pi(Fn&& fn) const { foreach_ci(fn); }
    template <typename Fn> void foreach_po(Fn&& fn) const { foreach_co(fn); }
    template <typename Fn> void foreach_gate(Fn&& fn) const
    {
        auto r = range<uint64_t>(2u, _storage->nodes.size());
        detail::foreach_element_if<decltype(r.begin()), node>(r.begin(), r.end(), [this](auto n) { return !is_ci(n) && !is_dead(n); }, fn);
    }
    template <typename Fn> void foreach_fanin(const node& n, Fn&& fn) const
    {
        if (n <= 1 || is_ci(n)) return;
        using It = decltype(_storage->nodes[n].children.cbegin());
        const auto ch = _storage->nodes[n].children;
        detail::foreach_element_transform<It, signal>(ch.cbegin(), ch.cend(), [](auto f) { return f.index; }, fn);
    }
    template <typename It> iterates_over_t<It, bool> compute(const node& n, It begin, It end) const
    {
        uint32_t i = 0, b = 0;
        while (begin != end) i |= static_cast<uint32_t>(*begin++ ? 1 : 0) << b++;
        return kitty::get_bit(_storage->data.cache[_storage->nodes[n].data[1].h1], i);
    }
    template <typename It> iterates_over_truth_table_t<It> compute(const node& n, It begin, It end) const
    {
        std::vector<typename std::iterator_traits<It>::value_type> t(begin, end);
        auto       r = t.front().construct();
        const auto g = _storage->data.cache[_storage->nodes[n].data[1].h1];
        for (uint64_t i = 0; i < r.num_bits(); ++i)
        {
            uint64_t p = 0;
            for (std::size_t j = 0; j < t.size(); ++j) p |= kitty::get_bit(t[j], i) << j;
            if (kitty::get_bit(g, p)) kitty::set_bit(r, i);
        }
        return r;
    }
    void     clear_values() const { for (auto& n : _storage->nodes) n.data[0].h2 = 0; }
    auto     value(const node& n) const { return _storage->nodes[n].data[0].h2; }
    void     set_value(const node& n, uint32_t v) const { _storage->nodes[n].data[0].h2 = v; }
    auto     incr_value(const node& n) const { return _storage->nodes[n].data[0].h2++; }
    auto     decr_value(const node& n) const { return --_storage->nodes[n].data[0].h2; }
    void     clear_visited() const { for (auto& n : _storage->nodes) n.data[1].h2 = 0; }
    auto     visited(const node& n) const { return _storage->nodes[n].data[1].h2; }
    void     set_visited(const node& n, uint32_t v) const { _storage->nodes[n].data[1].h2 = v; }
    uint32_t trav_id() const { return _storage->data.trav_id; }
    void     incr_trav_id() const { ++_storage->data.trav_id; }
    auto&    events() const { return *_events; }
    std::shared_ptr<klut_storage>               _storage;
    std::shared_ptr<network_events<base_type>>  _events;
};
}  // namespace mockturtle
#endif
