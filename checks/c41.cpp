// C41: truth-table helpers, truth-table texts, network utilities.
#include "net.hpp"
#include <fiction/io/tt_reader.hpp>
#include <fiction/utils/network_utils.hpp>
#include <fiction/utils/truth_table_utils.hpp>
#include <fiction/utils/mockturtle_utils.hpp>
#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/mig.hpp>
#include <mockturtle/views/fanout_view.hpp>
#include <algorithm>
#include <set>
#include <sstream>
using namespace net;
using tt = kitty::dynamic_truth_table;
static tt tt_of(uint64_t w, int n)
{
    tt t(static_cast<uint32_t>(n));
    kitty::create_from_words(t, &w, &w + 1);
    return t;
}
MC_MODEL(helpers, "22 single-output and 4 multi-output helpers, all input patterns", 1)
{
    const std::vector<std::pair<int, tt>> h{
        {BUF, fiction::create_id_tt()}, {NOT, fiction::create_not_tt()}, {AND, fiction::create_and_tt()}, {NAND, fiction::create_nand_tt()}, {OR, fiction::create_or_tt()},
        {NOR, fiction::create_nor_tt()}, {XOR, fiction::create_xor_tt()}, {XNOR, fiction::create_xnor_tt()}, {LT, fiction::create_lt_tt()}, {GT, fiction::create_gt_tt()},
        {LE, fiction::create_le_tt()}, {GE, fiction::create_ge_tt()}, {AND3, fiction::create_and3_tt()}, {XORAND, fiction::create_xor_and_tt()}, {ORAND, fiction::create_or_and_tt()},
        {ONEHOT, fiction::create_onehot_tt()}, {MAJ, fiction::create_maj_tt()}, {GAMBLE, fiction::create_gamble_tt()}, {DOT, fiction::create_dot_tt()}, {ITE, fiction::create_ite_tt()},
        {ANDXOR, fiction::create_and_xor_tt()}, {XOR3, fiction::create_xor3_tt()}};
    const auto& [k, t] = c.pick(h);
    c.step();
    CK(t.num_vars() == static_cast<uint32_t>(arity(k)), std::string{"the helper for "} + name_of(k) + " has the wrong number of variables");
    for (int p = 0; p < (1 << arity(k)); ++p)
        CK(kitty::get_bit(t, static_cast<uint64_t>(p)) == value(k, p & 1, (p >> 1) & 1, (p >> 2) & 1), std::string{"the helper for "} + name_of(k) + " creates another function");
}
MC_MODEL(multi_output, "double wire, crossing, fanout, half adder: all inputs; evaluate_output of all pairs and triples of 2-input functions", 1)
{
    const auto dw = fiction::create_double_wire_tt(), cx = fiction::create_crossing_wire_tt(), fo = fiction::create_fan_out_tt(), ha = fiction::create_half_adder_tt();
    CK(dw.size() == 2 && cx.size() == 2 && fo.size() == 2 && ha.size() == 2, "a multi-output helper has the wrong number of outputs");
    for (uint64_t p = 0; p < 4; ++p)
    {
        const uint64_t a = p & 1, b = (p >> 1) & 1;
        c.step();
        // the first output carries the more significant input (written first in the patterns) for parallel wires, the other for crossed ones
        CK(fiction::evaluate_output(dw, p) == (b | (a << 1)), "a double wire does not pass its inputs on");
        CK(fiction::evaluate_output(cx, p) == (a | (b << 1)), "a crossing does not swap its inputs");
        CK(fiction::evaluate_output(ha, p) == ((a ^ b) | ((a & b) << 1)), "a half adder does not add");
        if (p < 2) CK(fiction::evaluate_output(fo, p) == (p ? 3u : 0u), "a fanout does not copy its input");
    }
    const int n = c.range(1, 3);
    std::vector<tt> v;
    std::vector<int> w;
    for (int i = 0; i < n; ++i)
    {
        w.push_back(i == 2 ? (w[0] ^ 5) : c.choose(16));
        v.push_back(tt_of(static_cast<uint64_t>(w.back()), 2));
    }
    for (uint64_t p = 0; p < 4; ++p)
    {
        uint64_t e = 0;
        for (int i = 0; i < n; ++i) e |= static_cast<uint64_t>((w[i] >> p) & 1) << i;
        CK(fiction::evaluate_output(v, p) == e, "evaluate_output packs the outputs wrongly");
    }
}
MC_MODEL(truth_table_texts, "texts of 0-3 entries of 2 to 6 variables with all one-hot, all zero and all one words, every separator and ending", 6)
{
    const int n = c.choose(4);
    std::vector<tt> t;
    std::string     s;
    static const char* sep[] = {"\n", " ", "\r\n", "\t\n\n"};
    const auto      sp = sep[n ? c.choose(4) : 0];
    for (int i = 0; i < n; ++i)
    {
        const int v = c.range(2, i == 0 ? 6 : 4), m = 1 << v;
        tt        x(static_cast<uint32_t>(v));
        const int w = c.choose(i == 0 ? m + 2 : 6);
        if (w == m + 1 || (i > 0 && w == 5)) for (int b = 0; b < m; ++b) kitty::set_bit(x, static_cast<uint64_t>(b));
        else if (w > 0) kitty::set_bit(x, static_cast<uint64_t>((w - 1) % m));
        t.push_back(x);
        s += "0x" + kitty::to_hex(x) + " (a*!b)" + (i + 1 < n ? sp : "");
    }
    if (n && c.flip()) s += sp;
    std::stringstream    in{s};
    fiction::tt_reader<> r{in};
    for (const auto& x : t)
    {
        const auto y = r.next();
        c.step();
        CK(y.has_value(), "a truth table of the text is not returned", s);
        CK(*y == x, "a truth table is read as another function", s);
    }
    for (int i = 0; i < 2; ++i) CK(!r.next().has_value(), "a truth table is returned that is not in the text", s);
    fiction::tt_reader<> none{std::string{"/nonexistent/file"}};
    CK(!none.next().has_value(), "a truth table is read from a file that does not exist");
}
// ---- network utilities
using TN = mockturtle::fanout_view<fiction::technology_network>;
static void utilities(mc::ctx& c, const desc& d)
{
    std::vector<uint64_t> s;
    const auto            n = build<TN>(d, &s);
    c.step();
    const auto id = [&](uint64_t x) { for (std::size_t i = 0; i < s.size(); ++i) if (s[i] == x) return static_cast<int>(i); return -1; };
    using edge = mockturtle::edge<TN>;
    std::vector<std::pair<int, int>> e, all;
    std::size_t                      maxin = 0;
    for (int g = 2 + d.pis; g < d.signals(); ++g)
    {
        std::size_t real = 0;
        for (auto i : d.at(g).in)
        {
            e.emplace_back(i, g);
            real += i > 1;
        }
        maxin = std::max(maxin, real);
    }
    fiction::foreach_edge(n, [&](const auto& x) { all.emplace_back(id(x.source), id(x.target)); });
    std::sort(all.begin(), all.end());
    auto es = e;
    std::sort(es.begin(), es.end());
    CK(all == es, "foreach_edge does not visit every connection exactly once", d.str());
    for (uint32_t th = 0; th < 4; ++th) CK(fiction::has_high_degree_fanin_nodes(n, th) == (maxin > th), "has_high_degree_fanin_nodes is wrong", d.str());
    std::vector<uint64_t> paths(static_cast<std::size_t>(d.signals()), 1);
    for (int g = 0; g < d.signals(); ++g)
    {
        std::vector<std::pair<int, int>> in, out, ein, eout;
        for (const auto& x : e)
        {
            if (x.second == g) ein.push_back(x);
            if (x.first == g) eout.push_back(x);
        }
        fiction::foreach_incoming_edge(n, s[g], [&](const auto& x) { in.emplace_back(id(x.source), id(x.target)); });
        CK(in == ein, "foreach_incoming_edge is wrong", d.str());
        std::set<std::pair<int, int>> so, seo(eout.begin(), eout.end());
        fiction::foreach_outgoing_edge(n, s[g], [&](const auto& x) { so.emplace(id(x.source), id(x.target)); });
        CK(so == seo, "foreach_outgoing_edge is wrong", d.str());
        std::set<int> fo, efo;  // (whether a successor connected twice is listed twice is the view's business)
        for (auto x : fiction::fanouts(n, s[g])) fo.insert(id(x));
        for (const auto& x : eout) efo.insert(x.second);
        CK(fo == efo, "fanouts are wrong", d.str());
        uint32_t                         k = 0;
        std::vector<std::pair<int, int>> real;
        std::vector<int>                 fin;
        bool                             pi = false, cv = false;
        for (const auto& x : ein)
        {
            if (x.first < 2) ++k, cv = x.first == 1;
            else
            {
                real.push_back(x);
                fin.push_back(x.first);
                pi = pi || !d.is_gate(x.first);
            }
        }
        CK(fiction::num_constant_fanins(n, s[g]) == k, "num_constant_fanins is wrong", d.str());
        CK(fiction::has_incoming_primary_input(n, s[g]) == pi, "has_incoming_primary_input is wrong", d.str());
        if (k <= 1)
        {
            const auto       fc = fiction::fanins(n, s[g]);
            std::vector<int> f;
            for (auto x : fc.fanin_nodes) f.push_back(id(x));
            CK(f == fin && fc.constant_fanin.has_value() == (k == 1) && (k == 0 || *fc.constant_fanin == cv), "fanins are wrong", d.str());
        }
        in.clear();
        for (const auto& x : fiction::fanin_edges(n, s[g]).fanin_edges) in.emplace_back(id(x.source), id(x.target));
        CK(in == real, "fanin_edges are wrong", d.str());
        // paths: each a chain from a terminal to this node, all different as index sequences, and as many as there are
        if (d.is_gate(g))
        {
            paths[g] = 0;
            for (const auto& x : real) paths[g] += paths[x.first];
        }
        if (g > 1)
        {
            const auto ps = fiction::all_incoming_edge_paths(n, s[g]);
            CK(ps.size() == paths[g], "all_incoming_edge_paths finds the wrong number of paths", d.str());
            for (const auto& p : ps)
            {
                bool ok = p.empty() ? !d.is_gate(g) : p.back().target == s[g] && !d.is_gate(id(p.front().source));
                for (std::size_t i = 0; i + 1 < p.size(); ++i) ok = ok && p[i].target == p[i + 1].source;
                for (const auto& x : p) ok = ok && std::find(es.begin(), es.end(), std::make_pair(id(x.source), id(x.target))) != es.end();
                CK(ok, "all_incoming_edge_paths returns something that is not a path", d.str());
            }
        }
    }
    for (const auto& x : e)
        for (const auto& y : e)
        {
            const edge a{s[x.first], s[x.second]}, b{s[y.first], s[y.second]};
            CK((a == b) == (x == y), "edge equality is wrong", d.str());
            CK(x != y || std::hash<edge>{}(a) == std::hash<edge>{}(b), "equal edges hash differently", d.str());
        }
    bool consts = false;
    for (const auto& x : e) consts = consts || x.first < 2;
    for (auto p : d.pos) consts = consts || p < 2;
    if (!consts)
    {
        const auto l = d.live();
        bool       dead = false;
        for (int g = 2; g < d.signals(); ++g) dead = dead || (d.is_gate(g) && !l[g]);
        if (!dead)
        {
            std::vector<uint32_t> inv(static_cast<std::size_t>(d.signals()), 0);
            for (int g = d.signals() - 1; g >= 2 + d.pis; --g) for (auto i : d.at(g).in) inv[i] = std::max(inv[i], inv[g] + 1);
            const auto il = fiction::inverse_levels(n);
            for (int g = 2; g < d.signals(); ++g) CK(il.at(n.node_to_index(s[g])) == inv[g], "an inverse level is not the longest distance to an output", d.str());
        }
    }
}
MC_MODEL(network_utilities, "all networks of 1-2 inputs, up to 3 gates (not, lt), 1-2 outputs without constants", 12)
{
    bound b;
    b.gates_hi = 3;
    b.kinds    = {NOT, LT};
    b.pos_hi   = 2;
    utilities(c, choose(c, b));
}
MC_MODEL(network_utilities_constants, "all networks of 1-2 inputs, up to 2 gates (buf, and, maj) with constants, one output", 12)
{
    bound b;
    b.gates_hi  = 2;
    b.kinds     = {BUF, LT, MAJ};
    b.constants = true;
    utilities(c, choose(c, b));
}
MC_MODEL(filtered_iteration, "foreach_element_if_transform over all 0/1 predicates of up to 5 elements, all 4 callback forms, all stop positions", 6)
{
    const int n = c.choose(6), mask = c.choose(1 << n), form = c.choose(4), stop = c.choose(n + 2), off = c.choose(2) * 7;
    std::vector<int> v, e, got;
    std::vector<uint32_t> idx;
    for (int i = 0; i < n; ++i) v.push_back(i);
    for (int i = 0; i < n; ++i) if ((mask >> i) & 1) e.push_back(i * 10);
    const auto pred = [&](int i) { return ((mask >> i) & 1) != 0; };
    const auto tr   = [](int i) { return i * 10; };
    using It        = std::vector<int>::const_iterator;
    const auto take = [&](int x) { got.push_back(x); return static_cast<int>(got.size()) < stop; };
    switch (form)
    {
        case 0: mockturtle::detail::foreach_element_if_transform<It, int>(v.cbegin(), v.cend(), pred, tr, [&](int x) { got.push_back(x); }, static_cast<uint32_t>(off)); break;
        case 1: mockturtle::detail::foreach_element_if_transform<It, int>(v.cbegin(), v.cend(), pred, tr, [&](int x, uint32_t i) { got.push_back(x); idx.push_back(i); }, static_cast<uint32_t>(off)); break;
        case 2: mockturtle::detail::foreach_element_if_transform<It, int>(v.cbegin(), v.cend(), pred, tr, [&](int x) -> bool { return take(x); }, static_cast<uint32_t>(off)); break;
        default: mockturtle::detail::foreach_element_if_transform<It, int>(v.cbegin(), v.cend(), pred, tr, [&](int x, uint32_t i) -> bool { idx.push_back(i); return take(x); }, static_cast<uint32_t>(off)); break;
    }
    c.step();
    if (form >= 2) e.resize(std::min<std::size_t>(e.size(), static_cast<std::size_t>(std::max(stop, 1))));
    CK(got == e, "a filtered iteration visits other elements");
    if (form & 1) for (std::size_t i = 0; i < idx.size(); ++i) CK(idx[i] == i + static_cast<std::size_t>(off), "a filtered iteration counts wrongly");
}
