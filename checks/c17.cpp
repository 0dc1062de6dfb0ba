// C17: gate-level layouts under every edit history against a plain list of gates on a map.
#include "glm.hpp"

static const std::vector<const char*> SCH{"2DDWAVE4", "USE", "RES", "OPEN4"};
// any short history on a tiny layout with a crossing layer
template <class L> static void any_history(mc::ctx& c)
{
    session<L> s{c, {1, 0, 1}, "2DDWAVE4"};
    const int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        const auto e = s.empties();
        const auto lv = s.live();
        std::vector<std::function<void()>> ops;
        static const P A{0, 0, 0}, B{1, 0, 0};
        for (const auto& t : e)
        {
            ops.push_back([&s, t] { s.pi(t); });
            for (const auto& x : {A, B})
            {
                ops.push_back([&s, t, x] { s.po(x, t); });
                ops.push_back([&s, t, x] { s.gate(BUF, {x}, t); });
            }
            ops.push_back([&s, t] { s.gate(AND, {A, B}, t); });
        }
        ops.push_back([&s] { s.pi(std::nullopt); });
        ops.push_back([&s] { s.gate(BUF, {A}, std::nullopt); });
        ops.push_back([&s] { s.gate(OR, {A, B}, std::nullopt); });
        for (int n : lv)
        {
            std::vector<std::optional<P>> to(e.begin(), e.end());
            to.push_back(s.m.v[n].at);
            if (s.m.v[n].at) to.push_back(std::nullopt);
            for (const auto& t : to) { ops.push_back([&s, n, t] { s.move(n, t, {}); }); if (!s.m.v[n].pi) ops.push_back([&s, n, t] { s.move(n, t, {A}); }); }
            if (!s.m.v[n].pi) ops.push_back([&s, n] { s.connect(B, n); });
        }
        for (int x = 0; x < 2; ++x) for (int z = 0; z < 2; ++z) ops.push_back([&s, x, z] { s.clear({x, 0, z}); });
        ops[c.choose(static_cast<int>(ops.size()))]();
        if (c.again()) continue;
        s.compare();
        if (!c.fresh(mc::hash_mix(digest(s.m), d)) && d + 1 < depth) c.prune();
    }
    c.sample(s.log);
}
MC_MODEL(histories, "all histories of 3 (thorough 4) creations, moves, connections and clearings on a 2x1x2 layout; states merged", 24) { any_history<cart>(c); }

// edits of finished designs, on every topology and under several clockings
template <class L> static void designs(mc::ctx& c, int which)
{
    const auto* sch = c.pick(SCH);
    session<L> s{c, which == 0 ? P{2, 1, 1} : P{2, 2, 1}, sch};
    if (which == 0)
    {
        s.pi(P{0, 0, 0}); s.pi(P{1, 1, 0}); s.gate(AND, {{0, 0, 0}, {1, 1, 0}}, P{1, 0, 0}); s.gate(NOT, {{1, 0, 0}}, P{2, 0, 0}); s.po({2, 0, 0}, P{2, 1, 0});
    }
    else
    {
        s.pi(P{1, 0, 0}); s.pi(P{0, 1, 0}); s.gate(BUF, {{1, 0, 0}}, P{1, 1, 0}); s.gate(BUF, {{0, 1, 0}}, P{1, 1, 1}); s.po({1, 1, 1}, P{2, 1, 0}); s.gate(NOT, {{1, 1, 0}}, P{1, 2, 0}); s.po({1, 2, 0}, P{0, 2, 0});
    }
    if (!c.again()) s.compare(true);
    const int depth = c.thorough ? 3 : 2;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::function<void()>> ops;
        for (int n : s.live())
        {
            const auto old = s.m.v[n].in;
            auto to = s.empties();
            if (d > 0 && !c.thorough) to = {to.front(), to.back()};
            for (const auto& t : to) { ops.push_back([&s, n, t, old] { s.move(n, t, old); }); if (t.z == 0) ops.push_back([&s, n, t] { s.move(n, t, {}); }); }
            if (s.m.v[n].at) ops.push_back([&s, n] { s.move(n, s.m.v[n].at, {}); });
            if (!s.m.v[n].pi && s.m.v[n].in.size() < 2) for (const auto& p : {P{1, 0, 0}, P{1, 1, 0}, P{1, 1, 1}}) ops.push_back([&s, n, p] { s.connect(p, n); });
        }
        for (size_t n = 0; n < s.m.v.size(); ++n) if (s.m.v[n].at) ops.push_back([&s, t = *s.m.v[n].at] { s.clear(t); });
        const auto e = s.empties();
        ops.push_back([&s, e] { s.gate(XOR, {{1, 0, 0}, {1, 1, 0}}, e.front()); });
        ops.push_back([&s, e] { s.gate(BUF, {{1, 1, 0}}, e.back()); });
        ops.push_back([&s] {  // all wiring at once
            s.note("clear_routing");
            const auto before = s.m;
            for (int n : s.live())
            {
                auto& x = s.m.v[n];
                if (x.f == BUF && !x.pi && std::find(s.m.outs.begin(), s.m.outs.end(), n) == s.m.outs.end() && before.fanout(n, true).size() < 2) { if (x.at) s.m.clear(*x.at); }
            }
            for (auto& x : s.m.v) if (x.live) x.in.clear();
            clear_routing(*s.l);
        });
        ops.push_back([&s] {  // a clone is equal and independent
            s.note("clone");
            L k = s.l->clone();
            s.compare();
            k.create_buf(sg<L>({1, 0, 0}), tl<L>({0, 0, 1}));
            k.clear_tile(tl<L>({1, 0, 0}));
            k.set_name(static_cast<uint32_t>(2), "other");
            k.assign_clock_number({0, 0}, 2);
            s.compare();
            *s.l = s.l->clone();
        });
        ops[c.choose(static_cast<int>(ops.size()))]();
        if (c.again()) continue;
        s.compare(true);
        if (!c.fresh(mc::hash_mix(mc::hash_mix(digest(s.m), d), mc::hash_str(sch))) && d + 1 < depth) c.prune();
    }
    c.sample(s.log);
}
#define DESIGNS(ID, T, W) MC_MODEL(ID, "all sequences of 2 (thorough 3) edits (move, reconnect, connect, clear, create, clear_routing, clone) of a finished design under 4 clockings (quick: second moves to the first and last empty tile only), all queries incl. directions", 4) { designs<T>(c, W); }
DESIGNS(and_cartesian, cart, 0)
DESIGNS(crossing_cartesian, cart, 1)
DESIGNS(and_hex_row, hexl, 0)

DESIGNS(crossing_hex_column, hexc, 1)
DESIGNS(crossing_shifted, shft, 1)

// every way the neighbours of one tile can be connected to it
template <class L> static void neighbourhood(mc::ctx& c)
{
    const auto* sch = c.pick(SCH);
    const int   cz  = c.choose(2);  // the layer the tile in the middle is on
    const P     ctr{1, 1, cz};
    session<L>  s{c, {2, 2, 1}, sch};
    std::vector<P> in;
    std::vector<P> later;
    int n = 0;
    for (int d : s.m.g.adj_dirs())
    {
        const auto r = *s.m.g.raw({1, 1, 0}, d);
        // nothing, a source below, a source above, a target below, a target above, source below target
        const int k = c.choose(s.m.g.adj_dirs().size() > 4 ? (n < 2 ? 6 : n < 4 ? 3 : 2) : 6);
        const P lo{r.x, r.y, 0}, hi{r.x, r.y, 1};
        if (k == 1 || k == 5) { s.pi(lo); in.push_back(lo); }
        if (k == 2) { s.pi(hi); in.push_back(hi); }
        if (k == 3) later.push_back(lo);
        if (k == 4 || k == 5) later.push_back(hi);
        ++n;
    }
    if (in.size() > 3) in.resize(3);
    if (in.empty()) s.pi(ctr);
    else if (in.size() == 1) s.gate(BUF, in, ctr);
    else s.gate(in.size() == 2 ? XOR : MAJ, in, ctr);
    for (const auto& p : later) s.gate(NOT, {ctr}, p);
    s.compare(true);
    c.state(mc::hash_mix(digest(s.m), mc::hash_str(sch)));
}
#define NEIGH(ID, T) MC_MODEL(ID, "every combination of sources and targets on both layers around one tile, 4 clockings: fanins, fanouts, data flow, directions", 4) { neighbourhood<T>(c); }
NEIGH(neighbours_cartesian, cart)
NEIGH(neighbours_hex_row, hexl)
NEIGH(neighbours_hex_column, hexc)
NEIGH(neighbours_shifted, shft)

// what gates compute
template <class L> static void all_functions(mc::ctx& c)
{
    const auto f = static_cast<fn>(c.choose(NFN + 1));
    const int  via = c.choose(2);  // 0: built on a fresh layout, 1: on one made from a clocked layout
    std::shared_ptr<L> lp;
    if (via == 0) lp = std::make_shared<L>(aspect_ratio<L>(2, 2, 1), *get_clocking_scheme<L>("2DDWAVE4"));
    else
    {
        using CL = clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>;
        lp = std::make_shared<L>(CL{aspect_ratio<L>(2, 2, 1), twoddwave_clocking<CL>()});
    }
    L& l = *lp;
    const std::string w = "function " + std::to_string(f) + (via ? " on a layout made from a clocked layout: " : ": ");
    c.check(l.is_empty() && l.size() == 2 && l.get_constant(false) != l.get_constant(true) && l.constant_value(1) && !l.constant_value(0), w + "fresh layout");
    const auto a = l.create_pi("a", {1, 0}), b = l.create_pi("b", {0, 1});
    if (f == NFN)
    {
        for (int bits = 0; bits < 16; ++bits)  // arbitrary functions of two inputs
        {
            kitty::dynamic_truth_table tt(2);
            for (int i = 0; i < 4; ++i) if (bits >> i & 1) kitty::set_bit(tt, i);
            l.create_node({a, b}, tt, {1, 1});
            const auto n = l.get_node(tile<L>{1, 1});
            c.check(l.node_function(n) == tt, w + "function of a node made from a truth table", std::to_string(bits));
            for (int i = 0; i < 4; ++i)
            {
                const std::vector<bool> v{(i & 1) != 0, (i & 2) != 0};
                c.check(l.compute(n, v.begin(), v.end()) == ((bits >> i & 1) != 0), w + "computed value of a node made from a truth table", std::to_string(bits));
                c.step();
            }
            c.state(mc::hash_mix(bits, via));
        }
        return;
    }
    std::vector<uint64_t> in{a, b};
    const int k = arity(f);
    // the third source comes over the crossing layer so that it is a neighbour as well
    if (k == 3) in.push_back(l.create_pi("c", {0, 1, 1}));
    in.resize(k);
    make(l, f, in, {1, 1});
    const auto n = l.get_node(tile<L>{1, 1});
    l.create_po(static_cast<uint64_t>(tile<L>{1, 1}), "f", {2, 1});
    const auto tt = l.node_function(n);
    c.check(static_cast<int>(tt.num_vars()) == k, w + "number of variables");
    std::vector<kitty::dynamic_truth_table> vars;
    for (int i = 0; i < k; ++i) { kitty::dynamic_truth_table t(static_cast<uint32_t>(k)); kitty::create_nth_var(t, static_cast<uint32_t>(i)); vars.push_back(t); }
    const auto res = l.compute(n, vars.begin(), vars.end());
    const auto sim = mockturtle::simulate<kitty::dynamic_truth_table>(l);
    c.check(sim.size() == 1, w + "one output");
    for (int i = 0; i < (1 << k); ++i)
    {
        const bool want = eval(f, i & 1, i >> 1 & 1, i >> 2 & 1);
        c.check(kitty::get_bit(tt, i) == want, w + "node_function", std::to_string(i));
        c.check(kitty::get_bit(res, i) == want, w + "compute on truth tables", std::to_string(i));
        std::vector<bool> v;
        for (int j = 0; j < k; ++j) v.push_back(i >> j & 1);
        c.check(l.compute(n, v.begin(), v.end()) == want, w + "compute on Boolean values", std::to_string(i));
        c.check(kitty::get_bit(sim[0], i) == want, w + "simulation of the layout", std::to_string(i));
        c.step();
    }
    c.state(mc::hash_mix(f, via + 100));
}
MC_MODEL(functions, "13 gate types and all 16 two-input truth tables: node function, compute on values and truth tables, simulation", 14) { all_functions<cart>(c); }
