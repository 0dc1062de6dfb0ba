// A plain list of gates on a map as the reference of gate-level layouts, and editing sessions that keep both in step.
#ifndef VERIF_GLM_HPP
#define VERIF_GLM_HPP
#include "mc.hpp"
#include "topo.hpp"
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>
#include <fiction/utils/routing_utils.hpp>
#include <mockturtle/algorithms/simulation.hpp>
#include <memory>

using namespace fiction;
using topo::P;
template <class B> using gl = gate_level_layout<clocked_layout<tile_based_layout<B>>>;
using cart = gl<cartesian_layout<offset::ucoord_t>>;
using hexl = gl<hexagonal_layout<offset::ucoord_t, even_row_hex>>;
using hexc = gl<hexagonal_layout<offset::ucoord_t, odd_column_hex>>;
using shft = gl<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>;
template <class L> struct base;
template <class B> struct base<gl<B>> { using type = topo::tr<B>; };

enum fn { BUF, NOT, AND, NAND, OR, NOR, LT, GE, GT, LE, XOR, XNOR, MAJ, NFN };
static int arity(fn f) { return f <= NOT ? 1 : f == MAJ ? 3 : 2; }
static bool eval(fn f, int a, int b, int c)
{
    switch (f)
    {
        case BUF: return a;
        case NOT: return !a;
        case AND: return a && b;
        case NAND: return !(a && b);
        case OR: return a || b;
        case NOR: return !(a || b);
        case LT: return a < b;
        case GE: return a >= b;
        case GT: return a > b;
        case LE: return a <= b;
        case XOR: return a != b;
        case XNOR: return a == b;
        default: return a + b + c > 1;
    }
}
template <class L> static uint64_t make(L& l, fn f, const std::vector<uint64_t>& s, const tile<L>& t)
{
    switch (f)
    {
        case BUF: return l.create_buf(s[0], t);
        case NOT: return l.create_not(s[0], t);
        case AND: return l.create_and(s[0], s[1], t);
        case NAND: return l.create_nand(s[0], s[1], t);
        case OR: return l.create_or(s[0], s[1], t);
        case NOR: return l.create_nor(s[0], s[1], t);
        case LT: return l.create_lt(s[0], s[1], t);
        case GE: return l.create_ge(s[0], s[1], t);
        case GT: return l.create_gt(s[0], s[1], t);
        case LE: return l.create_le(s[0], s[1], t);
        case XOR: return l.create_xor(s[0], s[1], t);
        case XNOR: return l.create_xnor(s[0], s[1], t);
        default: return l.create_maj(s[0], s[1], s[2], t);
    }
}
template <class L> static bool is_a(const L& l, fn f, uint32_t n)
{
    switch (f)
    {
        case BUF: return l.is_buf(n);
        case NOT: return l.is_inv(n);
        case AND: return l.is_and(n);
        case NAND: return l.is_nand(n);
        case OR: return l.is_or(n);
        case NOR: return l.is_nor(n);
        case LT: return l.is_lt(n);
        case GE: return l.is_ge(n);
        case GT: return l.is_gt(n);
        case LE: return l.is_le(n);
        case XOR: return l.is_xor(n);
        case XNOR: return l.is_xnor(n);
        default: return l.is_maj(n);
    }
}

struct nd
{
    fn               f;
    bool             pi, live;
    std::optional<P> at;
    std::vector<P>   in;
    std::string      name;
};
struct model
{
    topo::geo                    g;
    std::function<int(P)>        clk;  // clock number
    int                          phases;
    std::vector<nd>              v;       // node i+2
    std::vector<int>             ins, outs;
    int at(const P& p) const
    {
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].live && v[i].at && *v[i].at == p) return static_cast<int>(i);
        return -1;
    }
    bool flat_adj(const P& a, const P& b) const  // irrespective of the layer
    {
        for (int d : g.adj_dirs())
        {
            const auto r = g.raw({a.x, a.y, 0}, d);
            if (r && r->x == b.x && r->y == b.y) return g.in({b.x, b.y, b.z});
        }
        return false;
    }
    bool feeds(const P& from, const P& to) const { return (clk(from) + 1) % phases == clk(to); }
    std::vector<P> fanin(int n, bool clocked) const
    {
        std::vector<P> r;
        if (v[n].at)
            for (const auto& s : v[n].in)
                if (at(s) >= 0 && flat_adj(*v[n].at, s) && (!clocked || feeds(s, *v[n].at))) r.push_back(s);
        return r;
    }
    std::set<int> fanout(int n, bool clocked) const
    {
        std::set<int> r;
        if (v[n].at)
            for (size_t m = 0; m < v.size(); ++m)
                if (v[m].live && v[m].at)
                    for (const auto& s : fanin(static_cast<int>(m), clocked))
                        if (s == *v[n].at) r.insert(static_cast<int>(m));
        return r;
    }
    void clear(const P& p)
    {
        const int n = at(p);
        if (n < 0) return;
        v[n].live = false;
        v[n].at.reset();
        outs.erase(std::remove(outs.begin(), outs.end(), n), outs.end());
    }
};
template <class L> static tile<L> tl(const P& p) { return tile<L>(p.x, p.y, p.z); }
template <class L> static uint64_t sg(const P& p) { return static_cast<uint64_t>(tl<L>(p)); }
static P ps(const auto& t) { return {static_cast<int>(t.x), static_cast<int>(t.y), static_cast<int>(t.z)}; }
static std::string str(const std::vector<P>& v)
{
    std::string s = "{";
    for (const auto& p : v) s += topo::str(p);
    return s + "}";
}

template <class L> static void compare(mc::ctx& c, const L& l, const model& m, const std::string& w, bool cardinal)
{
    const auto N = static_cast<uint32_t>(m.v.size());
    c.check(l.size() == N + 2, w + "size");
    uint32_t gates = 0, wires = 0, cross = 0;
    std::vector<uint32_t> nodes{0, 1}, gs, ws;
    for (uint32_t i = 0; i < N; ++i)
    {
        const auto& n = m.v[i];
        const auto  k = i + 2;
        c.check(l.is_dead(k) == !n.live, w + "a node is dead exactly when its tile was cleared", "node " + std::to_string(k));
        c.check(l.is_pi(k) == n.pi, w + "is_pi");
        c.check(l.is_po(k) == (std::find(m.outs.begin(), m.outs.end(), static_cast<int>(i)) != m.outs.end()), w + "is_po");
        for (int f = 0; f < NFN; ++f) c.check(is_a(l, static_cast<fn>(f), k) == (n.f == f), w + "type of a gate");
        c.check(l.is_wire(k) == (n.f == BUF) && l.is_gate(k) == !n.pi, w + "is_wire/is_gate");
        c.check(l.get_name(k) == n.name && l.has_name(k) == !n.name.empty(), w + "name of a node", l.get_name(k) + " instead of " + n.name);
        if (!n.live) continue;
        nodes.push_back(k);
        if (!n.pi) gs.push_back(k);
        if (n.f == BUF) ws.push_back(k);
        if (n.at)
        {
            (n.f == BUF ? wires : gates)++;
            c.check(l.get_tile(k) == tl<L>(*n.at) && l.get_node(tl<L>(*n.at)) == k && l.get_node(l.make_signal(k)) == k, w + "node and tile are not mapped one to one", "node " + std::to_string(k));
        }
        else c.check(l.get_tile(k).is_dead(), w + "a node that is nowhere has a tile");
        const auto wf = m.fanin(static_cast<int>(i), true), wu = m.fanin(static_cast<int>(i), false);
        std::vector<P> gf, gu;
        l.foreach_fanin(k, [&](const auto& s) { gf.push_back(ps(static_cast<tile<L>>(s))); });
        const auto fu = [&](const auto& s) { gu.push_back(ps(static_cast<tile<L>>(s))); };
        l.template foreach_fanin<decltype(fu), false>(k, decltype(fu)(fu));
        c.check(gf == wf, w + "fanins", "node " + std::to_string(k) + ": " + str(gf) + " instead of " + str(wf));
        c.check(gu == wu, w + "fanins irrespective of the clocking", "node " + std::to_string(k) + ": " + str(gu) + " instead of " + str(wu));
        c.check(l.fanin_size(k) == wf.size() && l.template fanin_size<false>(k) == wu.size(), w + "fanin_size");
        const auto of = m.fanout(static_cast<int>(i), true), ou = m.fanout(static_cast<int>(i), false);
        std::vector<int> go, gn;
        l.foreach_fanout(k, [&](const auto& o) { go.push_back(static_cast<int>(o) - 2); });
        const auto fo = [&](const auto& o) { gn.push_back(static_cast<int>(o) - 2); };
        l.template foreach_fanout<decltype(fo), false>(k, decltype(fo)(fo));
        c.check(std::set<int>(go.begin(), go.end()) == of && go.size() == of.size(), w + "fanouts", "node " + std::to_string(k));
        c.check(std::set<int>(gn.begin(), gn.end()) == ou && gn.size() == ou.size(), w + "fanouts irrespective of the clocking", "node " + std::to_string(k));
        c.check(l.fanout_size(k) == of.size() && l.template fanout_size<false>(k) == ou.size(), w + "fanout_size");
        c.check(l.is_fanout(k) == (n.f == BUF && of.size() > 1), w + "is_fanout");
        if (n.at)
        {
            const auto t = tl<L>(*n.at);
            std::vector<P> di, dou;
            for (const auto& q : l.incoming_data_flow(t)) di.push_back(ps(q));
            for (const auto& q : l.outgoing_data_flow(t)) dou.push_back(ps(q));
            std::set<P> want;
            for (int o : of) want.insert(*m.v[o].at);
            c.check(di == wf && std::set<P>(dou.begin(), dou.end()) == want && dou.size() == want.size(), w + "data flow");
            c.check(l.has_no_incoming_signal(t) == wf.empty() && l.has_no_outgoing_signal(t) == of.empty(), w + "has_no_incoming/outgoing_signal");
            c.check(l.is_gate_tile(t) == !n.pi && l.is_wire_tile(t) == (n.f == BUF) && !l.is_empty_tile(t) && l.is_pi_tile(t) == n.pi && l.is_po_tile(t) == l.is_po(k), w + "kind of an occupied tile");
            if (cardinal)
            {
                const auto dirs = [&](bool clocked, const std::vector<P>& fi, const std::set<int>& fo2) {
                    std::array<bool, 8> in{}, out{};
                    for (int d = 0; d < 8; ++d)
                    {
                        const auto r = m.g.raw({n.at->x, n.at->y, 0}, d);
                        if (!r || !m.g.in(*r)) continue;
                        for (const auto& s : fi) in[d] |= s.x == r->x && s.y == r->y;
                        for (int o : fo2) out[d] |= m.v[o].at->x == r->x && m.v[o].at->y == r->y;
                    }
                    const auto chk = [&](int d, bool i1, bool o1, bool i0, bool o0) {
                        c.check((clocked ? i1 : i0) == in[d], w + "incoming signal from a direction", std::string(topo::DN[d]) + " of " + topo::str(*n.at));
                        c.check((clocked ? o1 : o0) == out[d], w + "outgoing signal in a direction", std::string(topo::DN[d]) + " of " + topo::str(*n.at));
                    };
#define DIR(D, A) chk(topo::D, l.has_##A##ern_incoming_signal(t), l.has_##A##ern_outgoing_signal(t), l.template has_##A##ern_incoming_signal<false>(t), l.template has_##A##ern_outgoing_signal<false>(t))
                    DIR(N, north); DIR(NE, north_east); DIR(E, east); DIR(SE, south_east); DIR(S, south); DIR(SW, south_west); DIR(W, west); DIR(NW, north_west);
                    bool opposite = false;
                    for (const auto& [a, b] : m.g.opp_dirs()) opposite |= (in[a] && out[b]) || (in[b] && out[a]);
                    c.check((clocked ? l.has_opposite_incoming_and_outgoing_signals(t) : l.template has_opposite_incoming_and_outgoing_signals<false>(t)) == opposite, w + "opposite signals", topo::str(*n.at));
                };
                dirs(true, wf, of);
                dirs(false, wu, ou);
            }
        }
        c.step(6);
    }
    for (int z = 0; z <= m.g.mz; ++z)
        for (int y = 0; y <= m.g.my; ++y)
            for (int x = 0; x <= m.g.mx; ++x)
            {
                const P p{x, y, z};
                const int n = m.at(p);
                c.check(l.is_empty_tile(tl<L>(p)) == (n < 0), w + "a tile is occupied exactly when something is on it", topo::str(p));
                if (n < 0) c.check(l.get_node(tl<L>(p)) == 0 && !l.is_gate_tile(tl<L>(p)) && !l.is_wire_tile(tl<L>(p)) && !l.is_pi_tile(tl<L>(p)) && !l.is_po_tile(tl<L>(p)), w + "an empty tile is something", topo::str(p));
                if (z == 1)
                {
                    const int u = m.at({x, y, 0});
                    if (n >= 0 && u >= 0 && (m.v[n].f == BUF || m.v[u].f == BUF)) ++cross;
                }
            }
    c.check(l.num_gates() == gates, w + "num_gates", std::to_string(l.num_gates()) + " instead of " + std::to_string(gates));
    c.check(l.num_wires() == wires, w + "num_wires", std::to_string(l.num_wires()) + " instead of " + std::to_string(wires));
    c.check(l.num_crossings() == cross, w + "num_crossings", std::to_string(l.num_crossings()) + " instead of " + std::to_string(cross));
    c.check(l.is_empty() == (gates + wires == 0), w + "is_empty");
    const auto list = [&](const auto& each, const std::vector<uint32_t>& e, const char* q) {
        std::vector<uint32_t> r;
        each([&](const auto& n) { r.push_back(static_cast<uint32_t>(n)); });
        c.check(r == e, w + q);
    };
    list([&](auto f) { l.foreach_node(f); }, nodes, "foreach_node");
    list([&](auto f) { l.foreach_gate(f); }, gs, "foreach_gate");
    list([&](auto f) { l.foreach_wire(f); }, ws, "foreach_wire");
    std::vector<uint32_t> pi, po;
    for (int i : m.ins) pi.push_back(static_cast<uint32_t>(i) + 2);
    for (int i : m.outs) po.push_back(static_cast<uint32_t>(i) + 2);
    list([&](auto f) { l.foreach_pi(f); }, pi, "foreach_pi");
    list([&](auto f) { l.foreach_ci(f); }, pi, "foreach_ci");
    list([&](auto f) { l.foreach_po([&](const auto& s) { f(l.get_node(s)); }); }, po, "foreach_po");
    list([&](auto f) { l.foreach_co([&](const auto& s) { f(l.get_node(s)); }); }, po, "foreach_co");
    c.check(l.num_pis() == pi.size() && l.num_cis() == pi.size() && l.num_pos() == po.size() && l.num_cos() == po.size(), w + "number of inputs and outputs");
    for (uint32_t i = 0; i < pi.size(); ++i) c.check(l.pi_at(i) == pi[i] && l.get_input_name(i) == m.v[pi[i] - 2].name, w + "input list");
    for (uint32_t i = 0; i < po.size(); ++i) c.check(l.get_node(l.po_at(i)) == po[i] && l.get_output_name(i) == m.v[po[i] - 2].name, w + "output list");
    c.check(l.is_constant(l.get_node(l.get_constant(false))) && l.get_node(l.get_constant(true)) == 1 && !l.is_gate(0) && !l.is_gate(1), w + "constants");
}
static uint64_t digest(const model& m)
{
    uint64_t h = 7;
    const auto pp = [](const P& p) { return static_cast<uint64_t>(p.x + 16 * p.y + 256 * p.z + 1); };
    for (const auto& n : m.v)
    {
        h = mc::hash_mix(h, n.f * 4 + n.pi * 2 + n.live);
        h = mc::hash_mix(h, n.at ? pp(*n.at) : 0);
        for (const auto& p : n.in) h = mc::hash_mix(h, pp(p));
    }
    for (int o : m.outs) h = mc::hash_mix(h, o);
    return h;
}

// an edit session; the layout and the reference are edited in step
template <class L> struct session
{
    mc::ctx&           c;
    std::shared_ptr<L> l;
    model              m;
    std::string        log;
    int                serial{0};
    session(mc::ctx& cc, P ext, const char* scheme) :
            c{cc},
            l{std::make_shared<L>(aspect_ratio<L>(ext.x, ext.y, ext.z), *get_clocking_scheme<L>(scheme))},
            m{{base<L>::type::k, base<L>::type::odd, ext.x, ext.y, ext.z}, {}, 0, {}, {}, {}},
            log{scheme}
    {
        const auto s = *get_clocking_scheme<L>(scheme);  // the scheme itself is C16's business
        m.phases = s.num_clocks;
        m.clk    = [s](P p) { return static_cast<int>(s(tl<L>(p))); };
    }
    void note(const std::string& s)
    {
        log += "; " + s;
        c.note(log);
        c.step();
    }
    static std::string at(const std::optional<P>& t) { return t ? topo::str(*t) : std::string{"nowhere"}; }
    void pi(std::optional<P> t)
    {
        note("pi " + at(t));
        m.v.push_back({BUF, true, true, t, {}, "i" + std::to_string(serial)});
        m.ins.push_back(static_cast<int>(m.v.size()) - 1);
        l->create_pi("i" + std::to_string(serial++), t ? tl<L>(*t) : tile<L>{});
    }
    void po(P s, P t)
    {
        note("po " + topo::str(s) + "->" + topo::str(t));
        m.v.push_back({BUF, false, true, t, {s}, "o" + std::to_string(serial)});
        m.outs.push_back(static_cast<int>(m.v.size()) - 1);
        l->create_po(sg<L>(s), "o" + std::to_string(serial++), tl<L>(t));
    }
    void gate(fn f, std::vector<P> in, std::optional<P> t)
    {
        note("gate" + std::to_string(f) + " " + str(in) + "->" + at(t));
        m.v.push_back({f, false, true, t, in, ""});
        std::vector<uint64_t> s;
        for (const auto& p : in) s.push_back(sg<L>(p));
        const auto r = make(*l, f, s, t ? tl<L>(*t) : tile<L>{});
        if (t) c.check(r == sg<L>(*t), "a gate is created elsewhere", log);
    }
    void move(int n, std::optional<P> t, const std::vector<P>& in)
    {
        note("move " + std::to_string(n) + " " + at(t) + str(in));
        auto& x = m.v[n];
        if (!t && x.at) m.outs.erase(std::remove(m.outs.begin(), m.outs.end(), n), m.outs.end());  // moving an output away removes it
        x.at = t;
        x.in = in;
        std::vector<uint64_t> s;
        for (const auto& p : in) s.push_back(sg<L>(p));
        l->move_node(static_cast<uint32_t>(n) + 2, t ? tl<L>(*t) : tile<L>{}, s);
    }
    void connect(P s, int n)
    {
        note("connect " + topo::str(s) + "->" + std::to_string(n));
        m.v[n].in.push_back(s);
        l->connect(sg<L>(s), static_cast<uint32_t>(n) + 2);
    }
    void clear(P p)
    {
        note("clear " + topo::str(p));
        m.clear(p);
        l->clear_tile(tl<L>(p));
    }
    std::vector<P> empties() const
    {
        std::vector<P> r;
        for (int z = 0; z <= m.g.mz; ++z)
            for (int y = 0; y <= m.g.my; ++y)
                for (int x = 0; x <= m.g.mx; ++x)
                    if (m.at({x, y, z}) < 0) r.push_back({x, y, z});
        return r;
    }
    std::vector<int> live() const
    {
        std::vector<int> r;
        for (size_t i = 0; i < m.v.size(); ++i) if (m.v[i].live) r.push_back(static_cast<int>(i));
        return r;
    }
    void compare(bool cardinal = false) const { ::compare(c, *l, m, "", cardinal); }
};

// by following every path from every input to every output
struct timing
{
    uint64_t length{0}, throughput{1};
};
static timing reference(const model& m)
{
    timing t;
    const int N = static_cast<int>(m.v.size());
    std::vector<std::vector<std::pair<uint64_t, uint64_t>>> paths(N);  // (tiles, arrival) of every path ending in a node
    std::vector<int> state(N, 0);
    std::function<void(int)> go = [&](int n) {
        if (state[n]) return;
        state[n] = 1;
        const auto f = m.fanin(n, true);
        if (f.empty()) { paths[n].push_back({1, m.clk(*m.v[n].at)}); return; }
        uint64_t hi = 0, lo = ~0ull;
        for (const auto& s : f)
        {
            const int k = m.at(s);
            go(k);
            uint64_t late = 0;
            for (const auto& [l, a] : paths[k]) { paths[n].push_back({l + 1, a + 1}); late = std::max(late, a); }
            hi = std::max(hi, late);
            lo = std::min(lo, late);
        }
        if (f.size() > 1) t.throughput = std::max(t.throughput, (hi - lo) / m.phases + 1);
    };
    for (int o : m.outs)
    {
        go(o);
        for (const auto& [l, a] : paths[o]) t.length = std::max(t.length, l);
    }
    return t;
}
#endif
