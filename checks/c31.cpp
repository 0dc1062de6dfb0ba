// C31: technology networks compute the gates they create; gate-level layouts agree with them.
#include "net.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <mockturtle/algorithms/simulation.hpp>
#include <algorithm>
using namespace net;
using TN  = fiction::technology_network;
using sig = TN::signal;
using lyt = fiction::gate_level_layout<fiction::clocked_layout<fiction::tile_based_layout<fiction::cartesian_layout<fiction::offset::ucoord_t>>>>;

static std::string tts(const kitty::dynamic_truth_table& t) { return kitty::to_hex(t) + "/" + std::to_string(t.num_vars()); }
static kitty::dynamic_truth_table tt_of(uint64_t w, int n)
{
    kitty::dynamic_truth_table t(static_cast<uint32_t>(n));
    kitty::create_from_words(t, &w, &w + 1);
    return t;
}
// a node must be recognised as exactly the kinds whose function (and arity) it has
static void recognise(mc::ctx& c, const TN& n, uint64_t x, uint64_t w, int vars, const std::string& what)
{
    for (int k = 0; k < KINDS; ++k)
    {
        const bool e = arity(k) == vars && bits(k) == w;
        CK(is_kind(n, x, k) == e, "a " + what + (e ? " is not recognised as " : " is taken for ") + name_of(k));
    }
}
MC_MODEL(gate_functions, "22 gate types, all fanin selections from 3 inputs, 2 constants and 2 gates", 22)
{
    const int         k = c.choose(KINDS), a = arity(k);
    TN                n;
    std::vector<sig>  s{n.get_constant(false), n.get_constant(true), n.create_pi(), n.create_pi(), n.create_pi()};
    s.push_back(n.create_lt(s[2], s[3]));
    s.push_back(n.create_not(s[4]));
    desc d;
    d.pis   = 3;
    d.gates = {{LT, {2, 3}}, {NOT, {4}}};
    std::vector<sig> f;
    gate             g{k, {}};
    for (int i = 0; i < a; ++i)
    {
        g.in.push_back(c.choose(7));
        f.push_back(s[g.in.back()]);
    }
    std::vector<uint32_t> before;
    for (auto x : s) before.push_back(n.fanout_size(n.get_node(x)));
    const auto events = std::make_shared<int>(0);
    n.events().on_add.push_back(std::make_shared<std::function<void(uint64_t const&)>>([events](uint64_t const&) { ++*events; }));
    const auto        r = create(n, k, f);
    c.step();
    d.gates.push_back(g);
    const std::string what = std::string{name_of(k)} + " gate";
    if (k == NOT && g.in[0] < 2)
    {
        CK(r == n.get_constant(g.in[0] == 0), "negating a constant does not yield the other constant");
        return;
    }
    const auto x = n.get_node(r);
    CK(*events == 1, "creating a " + what + " announced " + std::to_string(*events) + " new nodes");
    CK(!n.is_pi(x) && !n.is_constant(x), "a " + what + " is an input or a constant");
    CK(n.fanin_size(x) == static_cast<uint32_t>(a), "a " + what + " has the wrong number of fanins");
    int j = 0;
    n.foreach_fanin(x, [&](auto const& y) { CK(j < a && y == f[static_cast<std::size_t>(j)], "a " + what + " has its fanins in another order"); ++j; });
    CK(j == a, "a " + what + " lists the wrong number of fanins");
    CK(n.node_function(x) == tt_of(bits(k), a), "a " + what + " has function " + tts(n.node_function(x)));
    recognise(c, n, x, bits(k), a, what);
    CK(n.is_fanout(x) == false, "a gate without successors is a fanout");
    for (std::size_t i = 0; i < s.size(); ++i)
        CK(n.fanout_size(n.get_node(s[i])) == before[i] + static_cast<uint32_t>(std::count(g.in.begin(), g.in.end(), static_cast<int>(i))), "creating a " + what + " left a wrong fanout size");
    for (int p = 0; p < (1 << a); ++p)
    {
        std::vector<bool> v;
        for (int i = 0; i < a; ++i) v.push_back((p >> i) & 1);
        CK(n.compute(x, v.begin(), v.end()) == value(k, p & 1, (p >> 1) & 1, (p >> 2) & 1), "a " + what + " computes a wrong value");
    }
    n.create_po(r);
    CK(n.is_po(x), "the driver of an output is not recognised");
    d.pos.push_back(7);
    CK(function_errors(n, d).empty(), "a network with a " + what + ": " + function_errors(n, d), d.str());
    const auto sim = mockturtle::simulate<kitty::dynamic_truth_table>(n, mockturtle::default_simulator<kitty::dynamic_truth_table>(3));
    const auto e   = d.outputs();
    for (uint64_t p = 0; p < 8; ++p) CK(kitty::get_bit(sim[0], p) == ((e[0] >> p) & 1), "simulating a " + what + " yields another function", d.str());
}
MC_MODEL(truth_table_gates, "all 2+4+16+256 functions of 0 to 3 variables as gates, cloned into another network too", 4)
{
    const int      v = c.choose(4);
    const uint64_t w = static_cast<uint64_t>(c.choose(1 << (1 << v)));
    TN             n, o;
    std::vector<sig> f;
    for (int i = 0; i < 3; ++i) f.push_back(n.create_pi());
    for (int i = 0; i < 3; ++i) o.create_pi();
    f.resize(static_cast<std::size_t>(v));
    const auto r = n.create_node(f, tt_of(w, v));
    c.step();
    if (v == 0)
    {
        CK(r == n.get_constant(w == 1), "a gate without fanins is not the constant of its function");
        return;
    }
    CK(n.node_function(n.get_node(r)) == tt_of(w, v), "a gate created from a truth table has another function", tts(tt_of(w, v)) + " became " + tts(n.node_function(r)));
    recognise(c, n, n.get_node(r), w, v, "gate created from truth table " + tts(tt_of(w, v)));
    // clone into a network that knows other functions already
    o.create_node({o.pi_at(0), o.pi_at(1), o.pi_at(2)}, tt_of(0x1b, 3));
    std::vector<sig> h;
    for (int i = 0; i < v; ++i) h.push_back(o.pi_at(static_cast<uint32_t>(i)));
    const auto q = o.clone_node(n, n.get_node(r), h);
    CK(o.node_function(o.get_node(q)) == tt_of(w, v), "a cloned gate has another function", tts(tt_of(w, v)));
    recognise(c, o, o.get_node(q), w, v, "cloned gate " + tts(tt_of(w, v)));
    // and the gate-level layout
    lyt l({2, 2}, fiction::twoddwave_clocking<lyt>());
    const auto a = l.create_pi("a", {1, 0}), b = l.create_pi("b", {0, 1});
    if (v <= 2)
    {
        std::vector<lyt::signal> fs{a, b};
        fs.resize(static_cast<std::size_t>(v));
        const auto y = l.create_node(fs, tt_of(w, v), {1, 1});
        CK(l.node_function(l.get_node(y)) == tt_of(w, v), "a layout gate created from a truth table has another function", tts(tt_of(w, v)));
    }
}
MC_MODEL(nary_gates, "nary and, or, xor of 0 to 5 signals from 3 inputs (all selections up to 4)", 3)
{
    const int k = c.choose(3), m = c.choose(6);
    TN        n;
    std::vector<sig> s{n.get_constant(false), n.get_constant(true), n.create_pi(), n.create_pi(), n.create_pi()}, f;
    std::vector<int> in;
    for (int i = 0; i < m; ++i)
    {
        in.push_back(m == 5 ? 2 + i % 3 : c.choose(5));
        f.push_back(s[in.back()]);
    }
    const auto r = k == 0 ? n.create_nary_and(f) : k == 1 ? n.create_nary_or(f) : n.create_nary_xor(f);
    c.step();
    n.create_po(r);
    walker<TN> w(n);
    const auto o = w.outputs();
    for (int p = 0; p < 8; ++p)
    {
        int ones = 0;
        for (auto i : in) ones += i == 1 || (i > 1 && ((p >> (i - 2)) & 1));
        const bool e = k == 0 ? ones == m : k == 1 ? ones > 0 : ones % 2 == 1;
        CK(((o[0] >> p) & 1) == e, std::string{"nary "} + (k == 0 ? "and" : k == 1 ? "or" : "xor") + " of " + std::to_string(m) + " signals computes another function");
    }
}
// construction histories: structure, counts, clones and output substitution
static void structure(mc::ctx& c, const TN& n, const desc& d, const std::vector<sig>& s, const std::string& when)
{
    std::vector<uint32_t> fo(s.size(), 0);
    for (const auto& g : d.gates) for (auto i : g.in) ++fo[i];
    for (auto p : d.pos) ++fo[p];
    CK(n.num_pis() == static_cast<uint32_t>(d.pis) && n.num_pos() == d.pos.size() && n.num_gates() == d.gates.size(), "input, output or gate counts are wrong " + when, d.str());
    for (std::size_t i = 0; i < s.size(); ++i)
    {
        CK(n.fanout_size(n.get_node(s[i])) == fo[i], "a fanout size is wrong " + when, d.str());
        CK(n.is_po(n.get_node(s[i])) == (std::count(d.pos.begin(), d.pos.end(), static_cast<int>(i)) > 0), "is_po is wrong " + when, d.str());
        const bool buf = d.is_gate(static_cast<int>(i)) && d.at(static_cast<int>(i)).k == BUF;
        CK(n.is_buf(n.get_node(s[i])) == buf, "is_buf is wrong " + when, d.str());
        CK(n.is_fanout(n.get_node(s[i])) == (buf && fo[i] > 1), "is_fanout is wrong " + when, d.str());
        CK(n.is_pi(n.get_node(s[i])) == (i >= 2 && i < static_cast<std::size_t>(2 + d.pis)), "is_pi is wrong " + when, d.str());
    }
    std::size_t i = 0;
    n.foreach_gate([&](auto const& g) { CK(i < d.gates.size() && g == n.get_node(s[2 + static_cast<std::size_t>(d.pis) + i]), "gates are listed wrongly " + when, d.str()); ++i; });
    i = 0;
    n.foreach_po([&](auto const& p) { CK(i < d.pos.size() && p == s[d.pos[i]], "outputs are listed wrongly " + when, d.str()); ++i; });
    CK(function_errors(n, d).empty(), "the network computes another function " + when + ": " + function_errors(n, d), d.str());
}
MC_MODEL(construction_histories, "all networks of 1-2 inputs, up to 3 gates (buf, not, lt), 0-2 outputs, constants allowed; clone and output substitution after each", 24)
{
    bound b;
    b.gates_hi  = c.thorough ? 4 : 3;
    b.kinds     = {BUF, NOT, LT};
    b.pos_lo    = 0;
    b.pos_hi    = 2;
    b.constants = false;
    const auto       d = choose(c, b);
    std::vector<sig> s;
    auto             n = build<TN>(d, &s);
    c.step(static_cast<uint64_t>(d.signals()));
    structure(c, n, d, s, "after construction");
    auto m = n.clone();
    structure(c, m, d, s, "in a clone");
    m.create_po(m.create_not(s[2]));
    structure(c, n, d, s, "after changing a clone");
    // every output that is not driven by a plain buffer gets one
    n.substitute_po_signals();
    c.step();
    desc             e = d;
    std::vector<sig> es;
    for (const auto x : s) es.push_back(x);
    uint64_t next = 2 + static_cast<uint64_t>(d.pis) + d.gates.size();
    for (auto& p : e.pos)
    {
        uint32_t fo = 0;
        for (const auto& g : e.gates) for (auto i : g.in) fo += i == p;
        for (auto q : e.pos) fo += q == p;
        if (e.is_gate(p) && e.at(p).k == BUF && fo <= 1) continue;
        e.gates.push_back({BUF, {p}});
        es.push_back(next++);
        p = e.signals() - 1;
    }
    structure(c, n, e, es, "after substituting the output signals");
}
// the same gate in a layout
MC_MODEL(layout_gates, "all gate creation functions of gate-level layouts against the network's", 16)
{
    const int k = c.choose(16);
    lyt       l({3, 3, 1}, fiction::open_clocking<lyt>());
    TN        n;
    std::vector<lyt::signal> f{l.create_pi("a", {0, 0}), l.create_pi("b", {1, 0}), l.create_pi("c", {2, 0})};
    std::vector<sig>         g{n.create_pi(), n.create_pi(), n.create_pi()};
    std::vector<int>         perm{0, 1, 2};
    const int                pm = c.choose(6);
    for (int i = 0; i < pm; ++i) std::next_permutation(perm.begin(), perm.end());
    std::vector<lyt::signal> lf;
    std::vector<sig>         nf;
    for (int i = 0; i < arity(k); ++i)
    {
        lf.push_back(f[perm[i]]);
        nf.push_back(g[perm[i]]);
    }
    lyt::signal y{};
    const lyt::tile t{1, 1};
    switch (k)
    {
        case BUF: y = l.create_buf(lf[0], t); break;
        case NOT: y = l.create_not(lf[0], t); break;
        case AND: y = l.create_and(lf[0], lf[1], t); break;
        case NAND: y = l.create_nand(lf[0], lf[1], t); break;
        case OR: y = l.create_or(lf[0], lf[1], t); break;
        case NOR: y = l.create_nor(lf[0], lf[1], t); break;
        case LT: y = l.create_lt(lf[0], lf[1], t); break;
        case GE: y = l.create_ge(lf[0], lf[1], t); break;
        case GT: y = l.create_gt(lf[0], lf[1], t); break;
        case LE: y = l.create_le(lf[0], lf[1], t); break;
        case XOR: y = l.create_xor(lf[0], lf[1], t); break;
        case XNOR: y = l.create_xnor(lf[0], lf[1], t); break;
        case MAJ: y = l.create_maj(lf[0], lf[1], lf[2], t); break;
        default:
        {
            // three-input functions without a creation function of their own
            if (k > DOT) c.prune();
            const auto w = n.node_function(n.get_node(create(n, k, nf)));
            y            = l.create_node(lf, w, t);
        }
    }
    c.step();
    const auto        r    = create(n, k, nf);
    const std::string what = std::string{"a layout's "} + name_of(k) + " gate";
    CK(l.node_function(l.get_node(y)) == n.node_function(n.get_node(r)), what + " has another function than the network's", tts(l.node_function(l.get_node(y))));
    const auto x = l.get_node(y);
    const std::vector<std::pair<int, bool>> pred{{NOT, l.is_inv(x)}, {AND, l.is_and(x)}, {NAND, l.is_nand(x)}, {OR, l.is_or(x)}, {NOR, l.is_nor(x)}, {LT, l.is_lt(x)},
                                                 {GE, l.is_ge(x)}, {GT, l.is_gt(x)}, {LE, l.is_le(x)}, {XOR, l.is_xor(x)}, {XNOR, l.is_xnor(x)}, {MAJ, l.is_maj(x)}, {BUF, l.is_buf(x)}};
    for (const auto& [q, v] : pred) CK(v == (q == k), what + (v ? " is taken for " : " is not recognised as ") + name_of(q));
    for (int p = 0; p < (1 << arity(k)); ++p)
    {
        std::vector<bool> v;
        for (int i = 0; i < arity(k); ++i) v.push_back((p >> i) & 1);
        CK(l.compute(x, v.begin(), v.end()) == value(k, p & 1, (p >> 1) & 1, (p >> 2) & 1), what + " computes a wrong value");
    }
}
