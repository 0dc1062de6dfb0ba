// C20: path finding against breadth-first search, Dijkstra and plain enumeration on an independently built graph.
#include "mc.hpp"
#include "topo.hpp"
#include <fiction/algorithms/path_finding/a_star.hpp>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/algorithms/path_finding/k_shortest_paths.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>
#include <fiction/utils/routing_utils.hpp>
#include <cmath>
#include <limits>
#include <queue>

using namespace fiction;
using topo::P;
using cart = cartesian_layout<offset::ucoord_t>;
using hexr = hexagonal_layout<offset::ucoord_t, even_row_hex>;
using hexc = hexagonal_layout<offset::ucoord_t, odd_column_hex>;
using shft = shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>;
template <class L> struct base { using type = topo::tr<L>; };
template <class B> struct base<clocked_layout<B>> { using type = topo::tr<B>; };
template <class L> struct base<obstruction_layout<L>> { using type = typename base<L>::type; };

// the graph of permitted steps
struct net
{
    std::vector<P>                          v;
    std::map<P, int>                        id;
    std::vector<std::vector<int>>           e;
    int add(const P& p) { if (!id.count(p)) { id[p] = static_cast<int>(v.size()); v.push_back(p); e.emplace_back(); } return id[p]; }
    std::vector<int> bfs(int s) const
    {
        std::vector<int> d(v.size(), -1);
        std::queue<int>  q;
        d[s] = 0;
        q.push(s);
        while (!q.empty()) { const int a = q.front(); q.pop(); for (int b : e[a]) if (d[b] < 0) { d[b] = d[a] + 1; q.push(b); } }
        return d;
    }
    std::vector<double> dijkstra(int s, const std::function<double(int, int)>& w) const
    {
        std::vector<double> d(v.size(), std::numeric_limits<double>::infinity());
        d[s] = 0;
        for (size_t r = 0; r < v.size(); ++r)
            for (size_t a = 0; a < v.size(); ++a) for (int b : e[a]) d[b] = std::min(d[b], d[a] + w(static_cast<int>(a), b));
        return d;
    }
    void simple(int a, int t, std::vector<int>& p, std::vector<char>& on, std::set<std::vector<int>>& r) const
    {
        p.push_back(a);
        on[a] = 1;
        if (a == t) r.insert(p);
        else for (int b : e[a]) if (!on[b]) simple(b, t, p, on, r);
        on[a] = 0;
        p.pop_back();
    }
    std::set<std::vector<int>> all(int s, int t) const
    {
        std::set<std::vector<int>> r;
        std::vector<int>           p;
        std::vector<char>          on(v.size());
        simple(s, t, p, on, r);
        return r;
    }
    bool step(int a, int b) const { return std::find(e[a].begin(), e[a].end(), b) != e[a].end(); }
};
template <class L> static coordinate<L> co(const P& p) { return coordinate<L>(p.x, p.y, p.z); }
static P ps(const auto& t) { return {static_cast<int>(t.x), static_cast<int>(t.y), static_cast<int>(t.z)}; }
static std::string pstr(const net& n, const std::vector<int>& p) { std::string s; for (int i : p) s += topo::str(n.v[i]); return s; }
template <class Path> static std::optional<std::vector<int>> ids(const net& n, const Path& p)
{
    std::vector<int> r;
    for (const auto& t : p) { const auto i = n.id.find(ps(t)); if (i == n.id.end()) return std::nullopt; r.push_back(i->second); }
    return r;
}
template <class Path> static std::vector<int> valid(mc::ctx& c, const net& n, const Path& p, int s, int t, const std::string& w)
{
    const auto o = ids(n, p);
    c.check(o.has_value(), w + ": a path visits a position that may not be used");
    c.check(!o->empty() && o->front() == s && o->back() == t, w + ": a path does not run from the source to the target", pstr(n, *o));
    for (size_t i = 1; i < o->size(); ++i) c.check(n.step((*o)[i - 1], (*o)[i]), w + ": a path takes a step that is not permitted", pstr(n, *o));
    c.check(std::set<int>(o->begin(), o->end()).size() == o->size(), w + ": a path visits a position twice", pstr(n, *o));
    return *o;
}
// everything at once for one source and target; admissible: the Manhattan distance is a lower bound on this topology
template <class L> static void judge(mc::ctx& c, const L& l, const net& n, const P& s, const P& t, bool admissible, bool crossings, bool all, const std::string& w)
{
    using path = layout_coordinate_path<L>;
    const int a = n.id.at(s), b = n.id.at(t);
    const auto d = n.bfs(a);
    const routing_objective<L> obj{co<L>(s), co<L>(t)};
    const a_star_params ap{crossings};
    const std::string ww = w + topo::str(s) + "->" + topo::str(t);
    c.note(ww);
    const auto run = [&](const path& p, bool adm, const char* q) {
        c.step();
        c.check(p.empty() == (d[b] < 0), std::string(q) + ": a path is found exactly when one exists", ww);
        if (p.empty()) return;
        valid(c, n, p, a, b, q);
        if (adm) c.check(static_cast<int>(p.size()) == d[b] + 1, std::string(q) + ": a path is not the shortest", ww + ": " + std::to_string(p.size() - 1) + " instead of " + std::to_string(d[b]));
    };
    run(a_star<path>(l, obj, manhattan_distance_functor<L, uint64_t>(), unit_cost_functor<L, uint8_t>(), ap), admissible, "A* with the Manhattan distance");
    run(a_star<path>(l, obj, chebyshev_distance_functor<L, uint64_t>(), unit_cost_functor<L, uint8_t>(), ap), true, "A* with the Chebyshev distance");
    if (!crossings)
    {
        const auto ad = a_star_distance<L, uint64_t>(l, obj.source, obj.target);
        c.check(d[b] < 0 ? ad == std::numeric_limits<uint64_t>::max() : (!admissible || static_cast<int>(ad) == d[b]), "A* distance", ww);
        const auto fd = a_star_distance_functor<L, double>()(l, obj.source, obj.target);
        c.check(d[b] < 0 ? std::isinf(fd) && fd > 0 : (!admissible || fd == d[b]), "A* distance functor", ww);
    }
    if (!all) return;
    const auto want = n.all(a, b);
    std::set<std::vector<int>> got;
    const auto en = enumerate_all_paths<path>(l, obj, {crossings});
    for (const auto& p : en) got.insert(valid(c, n, p, a, b, "enumeration"));
    c.check(got == want && en.size() == want.size(), "enumeration yields every simple path once", ww + ": " + std::to_string(en.size()) + " instead of " + std::to_string(want.size()));
    std::multiset<size_t> lens;
    for (const auto& p : want) lens.insert(p.size());
    for (uint32_t k : {1u, 2u, 3u, 5u, 100u})
    {
        if (k > 5 && want.size() > 30) continue;
        yen_k_shortest_paths_params kp{};
        kp.astar_params = ap;
        const auto ks = yen_k_shortest_paths<path>(l, obj, k, kp);
        c.step();
        c.check(ks.size() == std::min<size_t>(k, want.size()), "k shortest paths: as many as exist, at most k", ww + " k=" + std::to_string(k) + ": " + std::to_string(ks.size()) + " of " + std::to_string(want.size()));
        std::set<std::vector<int>> ds;
        auto li = lens.begin();
        for (const auto& p : ks)
        {
            ds.insert(valid(c, n, p, a, b, "k shortest paths"));
            if (admissible) c.check(p.size() == *li++, "k shortest paths: sorted and the cheapest that exist", ww + " k=" + std::to_string(k));
        }
        c.check(ds.size() == ks.size(), "k shortest paths: distinct", ww);
    }
}

template <class L> constexpr bool is_cart = base<L>::type::k == topo::CART;
// plain or clocked layout, marked tiles and connections
static void edges(net& n, const topo::geo& g, const std::function<int(P)>& clk, int phases, const std::set<P>& blocked, const std::set<std::pair<P, P>>& cut, const P& s, const P& t)
{
    for (auto& x : n.e) x.clear();
    for (const auto& p : n.v)
        for (int d : g.adj_dirs())
            if (const auto q = g.go(p, d); q != p)
                if ((!clk || (clk(p) + 1) % phases == clk(q)) && (!blocked.count(q) || q == t) && !cut.count({p, q})) n.e[n.id[p]].push_back(n.id[q]);
    (void)s;
}
static void nodes(net& n, const topo::geo& g) { for (int y = 0; y <= g.my; ++y) for (int x = 0; x <= g.mx; ++x) n.add({x, y, 0}); }

// every set of obstructed tiles
template <class B> static void obstructed(mc::ctx& c, int mx, int my, bool clocked)
{
    using L = obstruction_layout<B>;
    const topo::geo g{base<B>::type::k, base<B>::type::odd, mx, my, 0};
    std::function<int(P)> clk;
    int phases = 0;
    B   lb{aspect_ratio<B>(mx, my)};
    std::string w;
    if constexpr (is_clocked_layout_v<B>)
    {
        const auto sch = c.pick(is_cart<B> ? std::vector<std::string>{"2DDWAVE4", "USE", "RES", "CFE"} : std::vector<std::string>{"ROW4", "2DDWAVE4", "COLUMNAR4", "OPEN4"});
        const auto s = *get_clocking_scheme<B>(sch);
        lb     = B{aspect_ratio<B>(mx, my), s};
        clk    = [s](P p) { return static_cast<int>(s(coordinate<B>(p.x, p.y, 0))); };
        phases = s.num_clocks;
        w      = sch + " ";
    }
    else (void)clocked;
    net n;
    nodes(n, g);
    const int   bits = (mx + 1) * (my + 1);
    int         mask = 0;
    for (int i = 0; i < bits; ++i) mask |= c.choose(2) << i;
    L l{lb};
    std::set<P> blk;
    for (int i = 0; i < bits; ++i) if (mask >> i & 1) { blk.insert(n.v[i]); l.obstruct_coordinate(co<B>(n.v[i])); }
    w += "obstacles " + std::to_string(mask) + " ";
    const bool small = bits <= 9;
    for (const auto& s : n.v)
    {
        if (!small && s.x != 0 && !(s.x == 1 && s.y == 1)) continue;
        for (const auto& t : n.v)
        {
            edges(n, g, clk, phases, blk, {}, s, t);
            judge(c, l, n, s, t, is_cart<B>, false, small, w);
        }
    }
    for (const auto& p : n.v) c.check(l.is_obstructed_coordinate(co<B>(p)) == (blk.count(p) > 0), "path finding changes the obstructions of the layout", w + topo::str(p));
    c.state(mc::hash_mix(mc::hash_str(w), mask));
}
MC_MODEL(obstacles_cartesian, "3x3 Cartesian, all 512 sets of obstructed tiles, all pairs: A* with 2 heuristics, all simple paths, k shortest for k=1,2,3,5,100", 2) { obstructed<cart>(c, 2, 2, false); }
MC_MODEL(obstacles_cartesian_4x4, "4x4 Cartesian, all 65536 sets of obstructed tiles, sources on the left edge and (1,1), all targets: A*", 2)
{
    if (!c.thorough) { obstructed<cart>(c, 3, 2, false); return; }
    obstructed<cart>(c, 3, 3, false);
}
MC_MODEL(obstacles_hex_row, "3x2 hexagonal, all sets of obstructed tiles, all pairs", 2) { obstructed<hexr>(c, 2, 1, false); }
MC_MODEL(obstacles_hex_column, "2x3 hexagonal, all sets of obstructed tiles, all pairs", 2) { obstructed<hexc>(c, 1, 2, false); }
MC_MODEL(obstacles_shifted, "2x3 shifted Cartesian, all sets of obstructed tiles, all pairs", 2) { obstructed<shft>(c, 1, 2, false); }
MC_MODEL(obstacles_clocked, "3x3 Cartesian under 4 clockings, all sets of obstructed tiles, all pairs", 4) { obstructed<clocked_layout<cart>>(c, 2, 2, true); }
MC_MODEL(obstacles_clocked_hex, "3x3 hexagonal under 4 clockings, all sets of obstructed tiles, all pairs", 4) { obstructed<clocked_layout<hexr>>(c, 2, 2, true); }

// every set of one or two obstructed connections together with one obstructed tile
template <class B> static void cuts(mc::ctx& c, int mx, int my)
{
    using L = obstruction_layout<B>;
    const topo::geo g{base<B>::type::k, base<B>::type::odd, mx, my, 0};
    net n;
    nodes(n, g);
    edges(n, g, {}, 0, {}, {}, {}, {});
    std::vector<std::pair<P, P>> es;
    for (size_t a = 0; a < n.v.size(); ++a) for (int b : n.e[a]) es.push_back({n.v[a], n.v[b]});
    std::set<std::pair<P, P>> cut;
    std::set<P> blk;
    const int i = c.choose(static_cast<int>(es.size())), j = c.choose(static_cast<int>(es.size())), k = c.choose(static_cast<int>(n.v.size()) + 1);
    if (j > i) c.prune();
    cut.insert(es[i]);
    cut.insert(es[j]);
    L l{B{aspect_ratio<B>(mx, my)}};
    l.obstruct_connection(co<B>(es[i].first), co<B>(es[i].second));
    l.obstruct_connection(co<B>(es[j].first), co<B>(es[j].second));
    if (k) { blk.insert(n.v[k - 1]); l.obstruct_coordinate(co<B>(n.v[k - 1])); }
    const std::string w = "cuts " + std::to_string(i) + "," + std::to_string(j) + " tile " + std::to_string(k) + " ";
    for (const auto& s : n.v)
        for (const auto& t : n.v)
        {
            edges(n, g, {}, 0, blk, cut, s, t);
            judge(c, l, n, s, t, is_cart<B>, false, true, w);
        }
    for (const auto& e : es) c.check(l.is_obstructed_connection(co<B>(e.first), co<B>(e.second)) == (cut.count(e) > 0), "path finding changes the obstructed connections of the layout", w);
    c.state(mc::hash_mix(i * 1000 + j, k));
}
MC_MODEL(connections_cartesian, "3x2 Cartesian, all pairs of obstructed connections and one obstructed tile, all pairs of ends", 14) { cuts<cart>(c, 2, 1); }
MC_MODEL(connections_hex, "2x2 hexagonal, the same", 10) { cuts<hexr>(c, 1, 1); }

// routing over existing wires
using gate = gate_level_layout<clocked_layout<tile_based_layout<cart>>>;
static void over_wires(mc::ctx& c)
{
    using L = obstruction_layout<gate>;
    const auto sch = c.pick(std::vector<std::string>{"2DDWAVE4", "USE", "RES", "ESR"});
    const auto s = *get_clocking_scheme<gate>(sch);
    const auto clk = [&](P p) { return static_cast<int>(s(coordinate<gate>(p.x, p.y, 0))); };
    const int  mx = 2, my = 2;
    const topo::geo g{topo::CART, false, mx, my, 1};
    const auto feeds = [&](const P& a, const P& b) { return (clk(a) + 1) % 4 == clk(b); };
    gate l{aspect_ratio<gate>(mx, my, 1), s};
    std::map<P, int>          kind;  // 1 input, 2 wire, 3 output
    std::set<std::pair<P, P>> wires;
    std::string w = sch + " ";
    const auto lay = [&](int minlen, int maxlen) {  // one wire of any shape
        P p{c.range(0, mx), c.range(0, my), 0};
        if (kind.count(p)) c.prune();
        std::vector<P> tr{p};
        const int len = c.range(minlen, maxlen);
        while (static_cast<int>(tr.size()) < len)
        {
            std::vector<P> nx;
            for (int d : g.adj_dirs()) if (const auto q = g.go(p, d); q != p && feeds(p, q) && !kind.count(q) && std::find(tr.begin(), tr.end(), q) == tr.end()) nx.push_back(q);
            if (nx.empty()) c.prune();
            p = c.pick(nx);
            tr.push_back(p);
        }
        const int open = c.choose(3);  // 0: input, wires, output; 1: ends in a wire; 2: starts with a wire
        uint64_t sig = 0;
        for (size_t i = 0; i < tr.size(); ++i)
        {
            const auto t = co<gate>(tr[i]);
            w += topo::str(tr[i]);
            if (i == 0 && open != 2) { sig = l.create_pi("i", t); kind[tr[i]] = 1; }
            else if (i + 1 == tr.size() && open != 1) { sig = l.create_po(sig, "o", t); kind[tr[i]] = 3; }
            else { sig = l.create_buf(i == 0 ? l.get_constant(false) : sig, t); kind[tr[i]] = 2; }
            if (i) wires.insert({tr[i - 1], tr[i]});
        }
        w += " ";
    };
    lay(2, c.thorough ? 5 : 4);
    const bool two = c.thorough ? c.flip() : false;
    if (two) lay(2, 3);
    L o{l};
    std::optional<P> mark;
    if (const int m = c.choose(4); m == 1) mark = P{1, 1, 0}; else if (m == 2) mark = P{1, 1, 1}; else if (m == 3) mark = P{1, 0, 1};
    if (mark) o.obstruct_coordinate(co<gate>(*mark)), w += "marked " + topo::str(*mark) + " ";
    c.step();
    const auto incoming = [&](const P& t) { for (const auto& e : wires) if (e.second == t) return true; return false; };
    const auto outgoing = [&](const P& t) { for (const auto& e : wires) if (e.first == t) return true; return false; };
    net n;
    for (int z = 0; z < 2; ++z) for (int y = 0; y <= my; ++y) for (int x = 0; x <= mx; ++x) n.add({x, y, z});
    const auto g0 = [](P p) { return P{p.x, p.y, 0}; };
    for (int crossings = 0; crossings < 2; ++crossings)
        for (const auto& a : n.v)
            for (const auto& t : n.v)
            {
                if (a.z || t.z) continue;
                for (auto& x : n.e) x.clear();
                for (const auto& p : n.v)
                    for (int d : g.adj_dirs())
                    {
                        const auto q0 = g0(g.go(p, d));
                        if (q0 == g0(p) || !feeds(g0(p), q0)) continue;
                        P q = q0;
                        if ((kind.count(q0) || mark == q0) && q0 != t)
                        {
                            // only over wires that are connected on both ends, and not along them
                            if (!crossings || !kind.count(q0) || kind[q0] != 2 || !incoming(q0) || !outgoing(q0)) continue;
                            if (p.z == 1 && wires.count({g0(p), q0})) continue;
                            q = {q0.x, q0.y, 1};
                            if (mark == q) continue;
                        }
                        // a connection is taken when a wire leaves or arrives at an occupied tile in this direction
                        if ((kind.count(q) && wires.count({g0(p), q0})) || (kind.count(p) && wires.count({p, q0}))) continue;
                        n.e[n.id[p]].push_back(n.id[q]);
                    }
                judge(c, o, n, a, t, true, crossings, true, w + (crossings ? "with crossings " : ""));
            }
    c.state(w);
}
MC_MODEL(crossings, "3x3 gate-level layouts under 4 clockings holding any wire of 2-4 (thorough: up to 5, and a second one) tiles, one obstructed position, with and without crossings, all pairs of ends", 4) { over_wires(c); }

// other costs and the distance functions
MC_MODEL(costs, "3x3 Cartesian, all maps of step costs in {1,3}: A* against Dijkstra for all pairs", 2)
{
    const topo::geo g{topo::CART, false, 2, 2, 0};
    net n;
    nodes(n, g);
    edges(n, g, {}, 0, {}, {}, {}, {});
    int mask = 0;
    for (int i = 0; i < 9; ++i) mask |= c.choose(2) << i;
    cart l{aspect_ratio<cart>(2, 2)};
    const auto w = [&](int a, int b) { return (mask >> b & 1) ? 3.0 : (a > b ? 1.0 : 1.25); };
    const cost_functor<cart, double> cf{[&](const coordinate<cart>& a, const coordinate<cart>& b) { return w(n.id.at(ps(a)), n.id.at(ps(b))); }};
    const cost_functor<cart, uint32_t> ci{[&](const coordinate<cart>&, const coordinate<cart>& b) { return (mask >> n.id.at(ps(b)) & 1) ? 3u : 1u; }};
    const auto wi = [&](int, int b) { return (mask >> b & 1) ? 3.0 : 1.0; };
    for (int a = 0; a < 9; ++a)
    {
        const auto d = n.dijkstra(a, w), di = n.dijkstra(a, wi);
        for (int b = 0; b < 9; ++b)
        {
            using path = layout_coordinate_path<cart>;
            const routing_objective<cart> obj{co<cart>(n.v[a]), co<cart>(n.v[b])};
            const auto run = [&](const path& p, const auto& wf, double best, const char* q) {
                const auto o = valid(c, n, p, a, b, q);
                double s = 0;
                for (size_t i = 1; i < o.size(); ++i) s += wf(o[i - 1], o[i]);
                c.step();
                c.check(std::abs(s - best) < 1e-9, std::string(q) + ": a path is not the cheapest", std::to_string(mask) + " " + topo::str(n.v[a]) + topo::str(n.v[b]));
            };
            run(a_star<path>(l, obj, manhattan_distance_functor<cart, uint64_t>(), cf), w, d[b], "A* with costs");
            run(a_star<path>(l, obj, euclidean_distance_functor<cart, double>(), cf), w, d[b], "A* with costs and the Euclidean distance");
            run(a_star<path>(l, obj, manhattan_distance_functor<cart, uint64_t>(), ci), wi, di[b], "A* with integer costs");
            valid(c, n, a_star<path>(l, obj, manhattan_distance_functor<cart, uint64_t>(), random_cost_functor<cart, double>()), a, b, "A* with random costs");
        }
    }
    c.state(mask);
}
template <class L> static void distances_on(mc::ctx& c, int mx, int my, int mz, const std::string& name)
{
    L l{aspect_ratio<L>(mx, my, mz)};
    const manhattan_distance_functor<L> m{};
    const euclidean_distance_functor<L> e{};
    const squared_euclidean_distance_functor<L> q{};
    const chebyshev_distance_functor<L> h{};
    const twoddwave_distance_functor<L> t{};
    const auto dm = initialize_distance_map<L, uint64_t>(l, m);
    const auto sm = initialize_sparse_distance_map<L, uint64_t>(l, m);
    const distance_map_functor<L, uint64_t> df{dm};
    const sparse_distance_map_functor<L, uint64_t> sf{sm};
    const smart_distance_cache_functor<L, uint64_t> cf{l, &manhattan_distance<L, uint64_t>};
    for (int rep = 0; rep < 2; ++rep)
        for (int y = 0; y <= my; ++y) for (int x = 0; x <= mx; ++x) for (int yy = 0; yy <= my; ++yy) for (int xx = 0; xx <= mx; ++xx) for (int z = 0; z <= mz; ++z)
        {
            const auto a = coordinate<L>(x, y, z), b = coordinate<L>(xx, yy, z);
            const uint64_t man = static_cast<uint64_t>(std::abs(x - xx) + std::abs(y - yy));
            const std::string w = name + " " + topo::str({x, y, z}) + topo::str({xx, yy, z});
            c.step();
            c.check(m(l, a, b) == man, "Manhattan distance", w);
            c.check(std::abs(e(l, a, b) * e(l, a, b) - ((x - xx) * (x - xx) + (y - yy) * (y - yy))) < 1e-9, "Euclidean distance", w);
            c.check(q(l, a, b) == static_cast<uint64_t>((x - xx) * (x - xx) + (y - yy) * (y - yy)), "squared Euclidean distance", w);
            c.check(h(l, a, b) == static_cast<uint64_t>(std::max(std::abs(x - xx), std::abs(y - yy))), "Chebyshev distance", w);
            c.check(t(l, a, b) == (x <= xx && y <= yy ? man : std::numeric_limits<uint32_t>::max()), "2DDWave distance", w);
            c.check(df(l, a, b) == man && sf(l, a, b) == man && cf(l, a, b) == man, "stored distances", w);
        }
}
MC_MODEL(distances, "all pairs of positions of layouts up to 5x5, with and without a crossing layer: all distance functions, maps and caches", 5)
{
    const int mx = c.choose(5), my = c.choose(5), mz = c.choose(2);
    const auto n = std::to_string(mx + 1) + "x" + std::to_string(my + 1) + "x" + std::to_string(mz + 1);
    distances_on<cart>(c, mx, my, mz, n);
    distances_on<hexr>(c, mx, my, mz, n + " hexagonal");
    // exact on 2DDWave
    using cl = clocked_layout<cart>;
    cl l{aspect_ratio<cl>(mx, my, mz), twoddwave_clocking<cl>()};
    for (int y = 0; y <= my; ++y) for (int x = 0; x <= mx; ++x) for (int yy = 0; yy <= my; ++yy) for (int xx = 0; xx <= mx; ++xx)
    {
        const coordinate<cl> a(x, y), b(xx, yy);
        const auto d = a_star_distance<cl>(l, a, b);
        c.check(x <= xx && y <= yy ? d == twoddwave_distance<cl>(l, a, b) : d == std::numeric_limits<uint64_t>::max(), "the 2DDWave distance is the length of the shortest path", n);
    }
    c.state(n);
}
