// C30: network views enumerate, level, rank, and colour nodes consistently.
#include "net.hpp"
#include <fiction/algorithms/graph/mincross.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/networks/views/bfs_topo_view.hpp>
#include <fiction/networks/views/edge_color_view.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/networks/views/static_depth_view.hpp>
#include <mockturtle/networks/aig.hpp>
#include <algorithm>
using namespace net;
using tec = fiction::technology_network;
using aig = mockturtle::aig_network;

static std::string list(const std::vector<uint64_t>& v)
{
    std::string r;
    for (auto x : v) r += " " + std::to_string(x);
    return r;
}
// ---- an independent description of a network
struct shape
{
    std::vector<uint64_t>                                        consts, pis, gates, pos;
    std::vector<bool>                                            po_inv;
    std::map<uint64_t, std::vector<std::pair<uint64_t, bool>>>   in;
    std::map<uint64_t, int>                                      level;
    std::set<uint64_t>                                           live;
    template <class Ntk> explicit shape(const Ntk& n, bool inv = false, int pi_level = 0, int cost = 1)
    {
        consts.push_back(n.get_node(n.get_constant(false)));
        if (n.get_node(n.get_constant(true)) != consts[0]) consts.push_back(n.get_node(n.get_constant(true)));
        for (auto x : consts) level[x] = 0;
        n.foreach_pi([&](auto const& x) { pis.push_back(x); level[x] = pi_level; });
        for (uint64_t x = 0; x < n.size(); ++x)
            if (std::count(consts.begin(), consts.end(), x) == 0 && std::count(pis.begin(), pis.end(), x) == 0)
            {
                gates.push_back(x);
                n.foreach_fanin(x, [&](auto const& f) { in[x].emplace_back(n.get_node(f), n.is_complemented(f)); });
            }
        n.foreach_po([&](auto const& f) { pos.push_back(n.get_node(f)); po_inv.push_back(n.is_complemented(f)); });
        for (auto x : gates) lev(x, inv, cost);
        for (auto x : pos) mark(x);
    }
    int lev(uint64_t x, bool inv, int cost)
    {
        if (const auto it = level.find(x); it != level.end()) return it->second;
        int m = 0;
        for (auto [f, i] : in[x]) m = std::max(m, lev(f, inv, cost) + (inv && i ? 1 : 0));
        return level[x] = m + cost;
    }
    void mark(uint64_t x)
    {
        if (!live.insert(x).second) return;
        for (auto [f, i] : in[x]) mark(f);
    }
    int depth(bool inv = false) const
    {
        int d = 0;
        for (std::size_t i = 0; i < pos.size(); ++i) d = std::max(d, level.at(pos[i]) + (inv && po_inv[i] ? 1 : 0));
        return d;
    }
};
// ---- topological view
template <class Ntk>
static void topo_of(mc::ctx& c, const desc& d, const Ntk& n)
{
    const shape s(n);
    const auto  what = d.str() + dump(n);
    const auto  check = [&](const auto& t, const char* which)
    {
        const std::string     w = which;
        std::vector<uint64_t> l, g, lr, gr;
        t.foreach_node([&](auto const& x) { l.push_back(x); });
        t.foreach_gate([&](auto const& x) { g.push_back(x); });
        t.foreach_node_reverse([&](auto const& x) { lr.push_back(x); });
        t.foreach_gate_reverse([&](auto const& x) { gr.push_back(x); });
        c.step();
        std::set<uint64_t> seen;
        for (auto x : l)
        {
            CK(seen.insert(x).second, "the topological order lists a node twice" + w, what + " order" + list(l));
            for (auto [f, i] : s.in.count(x) ? s.in.at(x) : std::vector<std::pair<uint64_t, bool>>{})
                CK(seen.count(f), "the topological order lists a node before its fanin" + w, what + " order" + list(l));
        }
        for (auto x : s.live) CK(seen.count(x), "the topological order misses a node an output depends on" + w, what + " order" + list(l));
        std::vector<uint64_t> first = s.consts;
        first.insert(first.end(), s.pis.begin(), s.pis.end());
        CK(l.size() >= first.size() && std::equal(first.begin(), first.end(), l.begin()), "the topological order does not start with the constants and the inputs" + w, what + " order" + list(l));
        CK(std::vector<uint64_t>(l.begin() + std::min(first.size(), l.size()), l.end()) == g, "the gates are not the nodes after the inputs" + w, what);
        for (std::size_t i = 1; i < g.size(); ++i)
            CK(s.level.at(g[i - 1]) <= s.level.at(g[i]), "the breadth-first order lists a deeper gate first" + w, what + " order" + list(l));
        CK(t.size() == l.size() && t.num_gates() == g.size(), "the view counts its nodes wrongly" + w, what);
        std::reverse(lr.begin(), lr.end());
        std::reverse(gr.begin(), gr.end());
        CK(lr == l && gr == g, "the reverse order is not the reverse of the order" + w, what);
        for (std::size_t i = 0; i < l.size(); ++i)
            CK(t.node_to_index(l[i]) == i && t.index_to_node(static_cast<uint32_t>(i)) == l[i], "indices do not number the order" + w, what);
    };
    fiction::bfs_topo_view<Ntk> t{n};
    check(t, "");
    t.update_bfs_topo();
    check(t, " after an update");
    const auto copy = t;
    check(copy, " in a copy");
    CK(function_errors(t, d).empty(), "the topological view computes something else", what);
}
MC_MODEL(topological, "technology networks of 1-2 inputs, up to 3 gates (not, lt), 0-1 outputs", 24)
{
    bound b;
    b.kinds    = {NOT, LT};
    b.gates_hi = 3;
    b.pos_lo   = 0;
    b.pos_hi   = 1;
    const auto d = choose(c, b);
    topo_of(c, d, build<tec>(d));
}
MC_MODEL(topological_constants, "technology networks of 0-2 inputs, up to 2 gates (buf, lt, maj) with constants, 1-2 outputs", 24)
{
    bound b;
    b.kinds     = {BUF, LT, MAJ};
    b.pis_lo    = 0;
    b.pis_hi    = c.thorough ? 2 : 1;
    b.constants = true;
    b.pos_hi    = c.thorough ? 2 : 1;
    const auto d = choose(c, b);
    topo_of(c, d, build<tec>(d));
}
MC_MODEL(topological_aig, "AIGs of 1-2 inputs, up to 3 gates (and, or, nand), 1 output", 24)
{
    bound b;
    b.kinds    = {AND, OR, NAND};
    b.gates_hi = 3;
    const auto d = choose(c, b);
    topo_of(c, d, build<aig>(d));
}
// ---- depth view
template <class N>
struct cost2
{
    uint32_t operator()(const N&, const typename N::node&) const { return 2; }
};
template <class V>
static void levels(mc::ctx& c, const V& v, const shape& s, bool inv, const std::string& what)
{
    c.step();
    for (auto x : s.live) CK(static_cast<int>(v.level(x)) == s.level.at(x), "a node's level is not its longest distance from the inputs", what + " node " + std::to_string(x) + " level " + std::to_string(v.level(x)));
    for (auto x : s.pis) CK(static_cast<int>(v.level(x)) == (s.live.count(x) ? s.level.at(x) : 0), "an unused input has a level", what);
    CK(static_cast<int>(v.depth()) == s.depth(inv), "the depth is not the maximum level of the outputs", what + " depth " + std::to_string(v.depth()));
}
template <class Ntk>
static void depths(mc::ctx& c, const desc& d, const Ntk& n)
{
    const auto what = d.str() + dump(n);
    {
        const shape                     s(n);
        fiction::static_depth_view<Ntk> v{n};
        levels(c, v, s, false, what);
        // nodes on longest paths
        std::set<uint64_t>    crit;
        std::vector<uint64_t> todo;
        for (auto p : s.pos) if (s.level.at(p) == s.depth()) todo.push_back(p);
        while (!todo.empty())
        {
            const auto x = todo.back();
            todo.pop_back();
            if (!crit.insert(x).second || !s.in.count(x)) continue;
            for (auto [f, i] : s.in.at(x)) if (s.level.at(f) + 1 == s.level.at(x)) todo.push_back(f);
        }
        for (uint64_t x = 0; x < n.size(); ++x) CK(v.is_on_critical_path(x) == (crit.count(x) > 0), "the critical path is not the set of nodes on longest paths", what + " node " + std::to_string(x));
        v.update_levels();
        levels(c, v, s, false, what + " after an update");
        const auto copy = v;
        levels(c, copy, s, false, what + " copied");
        fiction::static_depth_view<Ntk> a{};
        a = v;
        levels(c, a, s, false, what + " assigned");
        const auto moved = std::move(v);
        levels(c, moved, s, false, what + " moved");
    }
    fiction::depth_view_params ps;
    ps.count_complements = true;
    levels(c, fiction::static_depth_view<Ntk>{n, {}, ps}, shape(n, true), true, what + " counting complements");
    using C = cost2<Ntk>;
    levels(c, fiction::static_depth_view<Ntk, C>{n, C{}}, shape(n, false, 0, 2), false, what + " cost 2");
    ps.count_complements = false;
    ps.pi_cost           = true;
    levels(c, fiction::static_depth_view<Ntk, C>{n, C{}, ps}, shape(n, false, 1, 2), false, what + " cost 2 for inputs too");
}
MC_MODEL(depth, "technology networks of 1-2 inputs, up to 3 gates (not, lt), 1-2 outputs", 24)
{
    bound b;
    b.kinds    = {NOT, LT};
    b.gates_hi = 3;
    b.pos_hi   = c.thorough ? 2 : 1;
    const auto d = choose(c, b);
    depths(c, d, build<tec>(d));
}
MC_MODEL(depth_constants, "technology networks of 1-2 inputs, up to 2 gates (buf, lt) with constants, 0-2 outputs", 24)
{
    bound b;
    b.kinds     = {BUF, LT};
    b.constants = true;
    b.pos_lo    = 0;
    b.pos_hi    = 2;
    const auto d = choose(c, b);
    depths(c, d, build<tec>(d));
}
MC_MODEL(depth_aig, "AIGs of 1-2 inputs, up to 3 gates (and, or, nand), 1 output", 24)
{
    bound b;
    b.kinds    = {AND, OR, NAND};
    b.gates_hi = 3;
    const auto d = choose(c, b);
    depths(c, d, build<aig>(d));
}
// ---- networks built inside a view: levels are kept with on_add
template <class Ntk>
static void grow(mc::ctx& c, const desc& d)
{
    fiction::static_depth_view<Ntk>   v{};
    fiction::mutable_rank_view<Ntk>   r{};
    std::vector<typename Ntk::signal> s{v.get_constant(false), v.get_constant(true)}, t{r.get_constant(false), r.get_constant(true)};
    int                               deepest = 0;
    std::vector<std::vector<uint64_t>> ranks;
    const auto add = [&](const auto& a, const auto& b, bool fresh)
    {
        s.push_back(a);
        t.push_back(b);
        if (!fresh) return;
        v.on_add(v.get_node(a));
        r.on_add(r.get_node(b));
        const shape x(v);
        const int   l = x.level.at(v.get_node(a));
        deepest       = std::max(deepest, l);
        if (static_cast<int>(ranks.size()) <= l) ranks.resize(static_cast<std::size_t>(l) + 1);
        ranks[static_cast<std::size_t>(l)].push_back(r.get_node(b));
        c.step();
        for (auto y : x.gates) CK(static_cast<int>(v.level(y)) == x.level.at(y), "a node added to a depth view gets a wrong level", d.str() + dump(v) + " node " + std::to_string(y) + " level " + std::to_string(v.level(y)));
        for (auto y : x.pis) CK(v.level(y) == 0, "an input added to a depth view gets a level", d.str());
        CK(static_cast<int>(v.depth()) == deepest, "the depth after adding a node is not the deepest level", d.str() + dump(v) + " depth " + std::to_string(v.depth()));
        CK(r.get_all_ranks() == ranks, "a node added to a rank view is not appended to the rank of its level", d.str() + dump(v));
        CK(r.check_validity(), "the ranks are invalid after adding a node", d.str() + dump(v));
    };
    for (int i = 0; i < d.pis; ++i)
    {
        const auto a = v.create_pi();
        add(a, r.create_pi(), true);
    }
    for (const auto& g : d.gates)
    {
        std::vector<typename Ntk::signal> f, h;
        for (auto i : g.in) { f.push_back(s[i]); h.push_back(t[i]); }
        const auto before = v.size();
        const auto a = create(v, g.k, f);
        add(a, create(r, g.k, h), v.size() == before + 1);
    }
    for (auto p : d.pos) { v.create_po(s[p]); r.create_po(t[p]); }
    v.update_levels();
    levels(c, v, shape(v), false, d.str() + dump(v) + " grown");
}
MC_MODEL(growing, "technology networks of 1-2 inputs, up to 2 gates (buf, lt, maj) with constants, 1 output, built inside a depth view and a rank view", 24)
{
    bound b;
    b.kinds     = {BUF, LT, MAJ};
    b.constants = true;
    b.pis_hi    = c.thorough ? 2 : 1;
    grow<tec>(c, choose(c, b));
}
MC_MODEL(growing_deep, "technology networks of 1-2 inputs, up to 3 gates (not, lt), 1 output, built inside a depth view and a rank view", 24)
{
    bound b;
    b.kinds    = {NOT, LT};
    b.gates_hi = 3;
    grow<tec>(c, choose(c, b));
}
MC_MODEL(growing_aig, "AIGs of 2 inputs, up to 3 gates (and, nand, or), 1 output, built inside a depth view and a rank view", 24)
{
    bound b;
    b.kinds    = {AND, NAND, OR};
    b.pis_lo   = 2;
    b.gates_hi = 3;
    grow<aig>(c, choose(c, b));
}
// ---- ranks
using ranks_t = std::vector<std::vector<uint64_t>>;
static std::string str(const ranks_t& r)
{
    std::string o;
    for (const auto& l : r) o += " [" + list(l) + " ]";
    return o;
}
template <class Ntk>
static ranks_t initial(const Ntk& n)
{
    const shape s(n);
    ranks_t     r(static_cast<std::size_t>(s.depth()) + 1);
    for (uint64_t x = 0; x < n.size(); ++x)
        if (std::count(s.consts.begin(), s.consts.end(), x) == 0) r[s.live.count(x) ? static_cast<std::size_t>(s.level.at(x)) : 0].push_back(x);
    return r;
}
template <class V>
static void ranked(mc::ctx& c, const V& v, const ranks_t& m, uint32_t width, const std::string& what)
{
    const shape s(v);
    const auto  is_pi = [&](uint64_t x) { return std::count(s.pis.begin(), s.pis.end(), x) > 0; };
    c.step();
    CK(v.get_all_ranks() == m, "the ranks are not the expected ones", what + " expected" + str(m) + " got" + str(v.get_all_ranks()));
    CK(v.check_validity(), "ranks are reported as invalid", what + str(m));
    CK(v.width() == width, "the width is not that of the widest rank", what + str(m) + " width " + std::to_string(v.width()));
    std::vector<uint64_t> all, gates, en, eg, pis, cis, epis, un;
    for (uint32_t l = 0; l < m.size(); ++l)
    {
        std::vector<uint64_t> a, g, ea, eg2;
        v.foreach_node_in_rank(l, [&](auto const& x) { a.push_back(x); });
        v.foreach_gate_in_rank(l, [&](auto const& x) { g.push_back(x); });
        CK(v.rank_width(l) == m[l].size() && v.get_ranks(l) == m[l], "a rank is not the expected one", what + str(m));
        for (uint32_t p = 0; p < m[l].size(); ++p)
        {
            CK(v.at_rank_position(l, p) == m[l][p] && v.rank_position(m[l][p]) == p, "the position of a node and the node at its position disagree", what + str(m) + " rank " + std::to_string(l) + " position " + std::to_string(p));
            ea.push_back(m[l][p]);
            if (!is_pi(m[l][p])) eg2.push_back(m[l][p]);
            else epis.push_back(m[l][p]);
        }
        CK(a == ea && g == eg2, "nodes or gates of a rank are listed wrongly", what + str(m));
        en.insert(en.end(), ea.begin(), ea.end());
        eg.insert(eg.end(), eg2.begin(), eg2.end());
    }
    v.foreach_node([&](auto const& x) { all.push_back(x); });
    v.foreach_gate([&](auto const& x) { gates.push_back(x); });
    v.foreach_pi([&](auto const& x) { pis.push_back(x); });
    v.foreach_ci([&](auto const& x) { cis.push_back(x); });
    v.foreach_pi_unranked([&](auto const& x) { un.push_back(x); });
    CK(all == en && gates == eg, "nodes or gates are not listed rank by rank", what + str(m));
    CK(pis == epis && cis == epis, "inputs are not listed in the order of their positions", what + str(m) + list(pis));
    std::sort(epis.begin(), epis.end());
    CK(un == epis, "unranked inputs are not listed in the order of their creation", what + str(m) + list(un));
}
static uint32_t widest(const ranks_t& r)
{
    std::size_t w = 0;
    for (const auto& l : r) w = std::max(w, l.size());
    return static_cast<uint32_t>(w);
}
template <class Ntk>
static void histories(mc::ctx& c, const desc& d, int depth)
{
    using V   = fiction::mutable_rank_view<Ntk>;
    V       v{build<Ntk>(d)};
    ranks_t m = initial(v);
    std::string h = d.str() + " history:";
    if (!c.again()) ranked(c, v, m, widest(m), h);
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(8);
        if (op == 0)  // swap
        {
            const int l = c.choose(static_cast<int>(m.size()));
            const int w = static_cast<int>(m[l].size());
            if (w < 2) c.prune();
            const int a = c.choose(w), b = c.choose(w - 1), q = b < a ? b : b + 1;
            h += " swap " + std::to_string(m[l][a]) + " and " + std::to_string(m[l][q]);
            v.swap(m[l][a], m[l][q]);
            std::swap(m[l][a], m[l][q]);
        }
        else if (op == 1)  // any permutation of a rank
        {
            const int l = c.choose(static_cast<int>(m.size()));
            auto      r = m[l];
            if (r.size() < 2 || r.size() > 4) c.prune();
            for (std::size_t k = 0; k + 1 < r.size(); ++k) std::swap(r[k], r[k + static_cast<std::size_t>(c.choose(static_cast<int>(r.size() - k)))]);
            h += " set rank " + std::to_string(l) + " to" + list(r);
            v.set_ranks(static_cast<uint32_t>(l), r);
            m[l] = r;
        }
        else if (op == 2)  // sort
        {
            const int  l    = c.choose(static_cast<int>(m.size()));
            const bool desc = c.flip();
            h += std::string{" sort rank "} + std::to_string(l) + (desc ? " descending" : " ascending");
            v.sort_rank(static_cast<uint32_t>(l), [desc](auto const& a, auto const& b) { return desc ? a > b : a < b; });
            std::sort(m[l].begin(), m[l].end(), [desc](auto a, auto b) { return desc ? a > b : a < b; });
        }
        else if (op == 3)  // a new gate that drives an output
        {
            std::vector<uint64_t> nodes;
            for (const auto& l : m) nodes.insert(nodes.end(), l.begin(), l.end());
            const shape s(v);
            nodes.erase(std::remove_if(nodes.begin(), nodes.end(), [&](auto x) { return std::count(s.gates.begin(), s.gates.end(), x) && !s.live.count(x); }), nodes.end());
            if (nodes.empty()) c.prune();
            const auto x = nodes[c.choose(static_cast<int>(nodes.size()))];
            h += " add a gate to node " + std::to_string(x);
            const auto f = create(v, NOT, std::vector<typename Ntk::signal>{v.make_signal(x)});
            if (v.get_node(f) == x) c.prune();
            v.on_add(v.get_node(f));
            v.create_po(f);
            const int l = shape(v).level.at(v.get_node(f));
            if (static_cast<int>(m.size()) <= l) m.resize(static_cast<std::size_t>(l) + 1);
            m[l].push_back(v.get_node(f));
        }
        else if (op == 4)  // a new input
        {
            h += " add an input";
            const auto f = v.create_pi();
            v.on_add(v.get_node(f));
            m[0].push_back(v.get_node(f));
        }
        else if (op == 5)
        {
            h += " update";
            v.update_ranks();
            m = initial(v);
        }
        else if (op == 6)
        {
            h += " restore the order of inputs";
            if (shape(v).pis.size() != m[0].size()) c.prune();
            v.rearrange_pis();
            m[0] = shape(v).pis;
        }
        else  // copies are independent
        {
            h += " copy";
            V w{v};
            V a{};
            a = v;
            if (!m[0].empty()) v.sort_rank(0, [&](auto const& x, auto const& y) { return v.rank_position(x) > v.rank_position(y); });
            ranked(c, w, m, widest(m), h + " (the copy)");
            ranked(c, a, m, widest(m), h + " (assigned)");
            v = std::move(a);
        }
        if (c.again()) continue;
        ranked(c, v, m, widest(m), h);
        const auto key = mc::hash_mix(mc::hash_str(d.str() + dump(v) + str(m)), static_cast<uint64_t>(i));
        if (!c.fresh(key) && i + 1 < depth) c.prune();
    }
    const auto x = shape(v);
    for (auto y : x.live) if (x.level.at(y) > 0 || x.in.count(y) == 0) CK(static_cast<int>(v.level(y)) == x.level.at(y), "a level is wrong after editing ranks", h);
}
MC_MODEL(rank_histories, "technology networks of 1-2 inputs, up to 2 live gates (not, lt), 1 output (thorough: 2); all histories of 2 operations (thorough: 3; swap, set, sort, add gate, add input, update, restore, copy)", 24)
{
    bound b;
    b.kinds      = {NOT, LT};
    b.live_gates = true;
    b.pos_hi     = c.thorough ? 2 : 1;
    const auto d = choose(c, b);
    histories<tec>(c, d, c.thorough ? 3 : 2);
}
MC_MODEL(rank_histories_deep, "networks of 2 inputs, 2 live gates (lt), 1 output; all histories of 3 operations (thorough: 4)", 24)
{
    bound b;
    b.kinds           = {LT};
    b.pis_lo          = 2;
    b.gates_lo        = 2;
    b.gates_hi        = 2;
    b.live_gates      = true;
    b.distinct_fanins = true;
    const auto d = choose(c, b);
    histories<tec>(c, d, c.thorough ? 4 : 3);
}
MC_MODEL(rank_validity, "networks of 1-2 inputs and up to 2 live gates; views constructed with every distribution of nodes over the ranks", 24)
{
    bound b;
    b.kinds      = {NOT, LT};
    b.live_gates = true;
    const auto d = choose(c, b);
    const tec  n = build<tec>(d);
    const auto m = initial(n);
    const shape s(n);
    // all nodes in any order, cut into ranks anywhere
    std::vector<uint64_t> all;
    for (const auto& l : m) all.insert(all.end(), l.begin(), l.end());
    for (std::size_t k = 0; k + 1 < all.size(); ++k) std::swap(all[k], all[k + static_cast<std::size_t>(c.choose(static_cast<int>(all.size() - k)))]);
    ranks_t r(m.size());
    int     at = 0;
    bool    ok = true;
    for (auto x : all)
    {
        at += c.choose(static_cast<int>(m.size()) - at);
        r[at].push_back(x);
        if (at != (s.live.count(x) ? s.level.at(x) : 0)) ok = false;
    }
    const fiction::mutable_rank_view<tec> v{n, r};
    CK(v.check_validity() == ok, "the validity of given ranks is judged wrongly", d.str() + str(r));
    if (ok) ranked(c, v, r, widest(r), d.str() + " with given ranks");
    if (ok)
    {
        fiction::mutable_rank_view<tec> w{n};
        w.set_all_ranks(r);
        ranked(c, w, r, widest(r), d.str() + " with all ranks set");
    }
}
// ---- crossing minimisation
static uint64_t crossings(const tec& n, const ranks_t& r)
{
    std::map<uint64_t, std::pair<std::size_t, std::size_t>> at;
    for (std::size_t l = 0; l < r.size(); ++l) for (std::size_t p = 0; p < r[l].size(); ++p) at[r[l][p]] = {l, p};
    std::set<std::pair<uint64_t, uint64_t>> edges;
    for (const auto& [x, i] : shape(n).in) for (auto [f, z] : i) if (at.count(f)) edges.insert({f, x});
    uint64_t k = 0;
    for (auto a : edges)
        for (auto b : edges)
            if (at[a.first].first == at[b.first].first && at[a.first].second < at[b.first].second && at[a.second].second > at[b.second].second) ++k;
    return k;
}
static void cross_of(mc::ctx& c, const desc& d, bool orders)
{
    const auto n = fiction::network_balancing<tec>(build<tec>(d));
    fiction::mutable_rank_view<tec> v{n};
    auto m = initial(n);
    if (orders)
        for (std::size_t l = 0; l < m.size(); ++l)
        {
            for (std::size_t k = 0; k + 1 < m[l].size() && k < 3; ++k) std::swap(m[l][k], m[l][k + static_cast<std::size_t>(c.choose(static_cast<int>(m[l].size() - k)))]);
            v.set_ranks(static_cast<uint32_t>(l), m[l]);
        }
    const auto before = crossings(n, m);
    const auto what   = d.str() + " ranks" + str(m);
    for (const bool fixed : {false, true})
        for (const bool optimize : {false, true})
        {
            fiction::mincross_params ps{};
            ps.fixed_pis = fixed;
            ps.optimize  = optimize;
            fiction::mincross_stats st{};
            const auto r   = fiction::mincross(v, ps, &st);
            const auto got = r.get_all_ranks();
            c.step();
            CK(v.get_all_ranks() == m, "crossing minimisation changes its input", what);
            ranked(c, r, got, widest(got), what + " after crossing minimisation");
            bool same = got.size() == m.size();
            for (std::size_t l = 0; same && l < m.size(); ++l) same = std::multiset<uint64_t>(m[l].begin(), m[l].end()) == std::multiset<uint64_t>(got[l].begin(), got[l].end());
            CK(same, "crossing minimisation moves nodes between ranks", what + " result" + str(got));
            CK(st.num_crossings == crossings(n, got), "the reported number of crossings is not that of the result", what + " result" + str(got) + " reported " + std::to_string(st.num_crossings) + " counted " + std::to_string(crossings(n, got)));
            CK(crossings(n, got) <= before, "crossing minimisation adds crossings", what + " result" + str(got));
            if (!optimize) CK(got == m, "counting crossings changes the ranks", what);
            if (fixed) CK(got[0] == m[0], "crossing minimisation moves inputs that are fixed", what + " result" + str(got));
            if (!fixed && optimize && m.size() == 2 && m[1].size() == 1) CK(crossings(n, got) == 0, "crossings are left where one gate collects everything", what);
        }
}
MC_MODEL(mincross, "balanced networks of 2 inputs, up to 2 gates (not, lt), 1-2 outputs; every order of every rank", 24)
{
    bound b;
    b.kinds  = {NOT, LT};
    b.pis_lo = 2;
    b.pos_hi = 2;
    cross_of(c, choose(c, b), true);
}
MC_MODEL(mincross_wide, "balanced networks of 3 inputs and 2-3 gates (lt with distinct fanins), 2 outputs; every order of every rank", 24)
{
    bound b;
    b.kinds           = {LT};
    b.pis_lo          = b.pis_hi = 3;
    b.gates_lo        = 2;
    b.gates_hi        = c.thorough ? 3 : 2;
    b.pos_lo          = b.pos_hi = 2;
    b.live_gates      = true;
    b.distinct_fanins = true;
    cross_of(c, choose(c, b), true);
}
MC_MODEL(mincross_deep, "balanced networks of 2 inputs and 3-4 live gates (lt; thorough: not too), 1 output, as built", 24)
{
    bound b;
    b.kinds           = c.thorough ? std::vector<int>{NOT, LT} : std::vector<int>{LT};
    b.pis_lo          = 2;
    b.gates_lo        = 3;
    b.gates_hi        = 4;
    b.live_gates      = true;
    b.live_inputs     = true;
    b.distinct_fanins = true;
    cross_of(c, choose(c, b), false);
}
// ---- edge colours
MC_MODEL(edge_colors, "all histories of 4 paintings of nodes and edges of a network of 2 inputs and 2 gates (thorough: 5)", 24)
{
    desc d;
    d.pis   = 2;
    d.gates = {gate{LT, {2, 3}}, gate{LT, {2, 4}}};
    d.pos   = {5};
    using V = fiction::out_of_place_edge_color_view<tec>;
    using E = mockturtle::edge<V>;
    const V              v{build<tec>(d)};
    const std::vector<E> e{E{2, 4}, E{3, 4}, E{4, 2}, E{4, 5}};
    std::map<int, uint32_t> ec, nc;
    uint32_t                value = 0;
    std::string             h;
    const int               depth = c.thorough ? 5 : 4;
    for (int i = 0; i < depth; ++i)
    {
        const int op = c.choose(7);
        if (op == 0)
        {
            const auto k = v.new_color();
            CK(k != value && v.current_color() == k, "a new colour is not current", h);
            value = k;
            h += " new";
        }
        else if (op == 1) { const int x = c.choose(4); v.paint_edge(e[x]); ec[x] = value; h += " e" + std::to_string(x); }
        else if (op == 2) { const int x = c.choose(4); v.paint_edge(e[x], 7u); ec[x] = 7; h += " e" + std::to_string(x) + "=7"; }
        else if (op == 3) { const int x = c.choose(4), y = c.choose(4); v.paint_edge(e[x], e[y]); const auto k = ec.count(y) ? ec[y] : 0; ec[x] = k; h += " e" + std::to_string(x) + "=e" + std::to_string(y); }
        else if (op == 4) { const int x = 2 + c.choose(4); v.paint(static_cast<uint64_t>(x)); nc[x] = value; h += " n" + std::to_string(x); }
        else if (op == 5) { v.clear_colors(); ec.clear(); nc.clear(); h += " clear"; }
        else { const int x = 2 + c.choose(2); v.paint(static_cast<uint64_t>(x), 9u); nc[x] = 9; h += " n" + std::to_string(x) + "=9"; }
        if (c.again()) continue;
        c.step();
        for (int x = 0; x < 4; ++x)
        {
            const auto want = ec.count(x) ? ec[x] : 0u;
            CK(v.edge_color(e[x]) == want, "an edge does not have the colour it was painted with last", h + " edge " + std::to_string(x));
            CK(v.eval_edge_color(e[x], [&](auto k) { return k == want; }), "the colour of an edge is evaluated wrongly", h);
            for (int y = 0; y < 4; ++y)
            {
                const auto other = ec.count(y) ? ec[y] : 0u;
                CK(v.eval_edge_color(e[x], e[y], [&](auto a, auto b) { return a == want && b == other; }), "the colours of two edges are evaluated wrongly", h);
                CK((e[x] == e[y]) == (x == y), "two edges are mistaken for each other", h);
            }
        }
        uint64_t key = mc::hash_mix(static_cast<uint64_t>(i), value);
        for (auto [x, k] : ec) key = mc::hash_mix(key, static_cast<uint64_t>(x) * 100 + k);
        for (auto [x, k] : nc) key = mc::hash_mix(key, static_cast<uint64_t>(x) * 1000 + 500 + k);
        for (int x = 2; x < 6; ++x) CK(v.color(static_cast<uint64_t>(x)) == (nc.count(x) ? nc[x] : 0u), "painting edges changes the colours of nodes or the other way round", h);
        if (!c.fresh(key) && i + 1 < depth) c.prune();
    }
}
