// C14: vendored undirected graph against a set-based reference, all operation histories.
#include "mc.hpp"
#include <undirected_graph.h>
#include <undirected_pair.h>
#include <graph_search_iterator.h>
#include <map>
#include <optional>

using G = undirected_graph<int, int, undirected_pair<int>, int>;

struct model
{
    std::map<int, int>                 v;
    std::map<std::pair<int, int>, int> e;
};
static std::pair<int, int> key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }

static void compare(mc::ctx& c, const G& g, const model& m, int nv, const std::string& h)
{
    c.check(g.size_vertices() == m.v.size() && g.size_edges() == m.e.size() && g.empty() == m.v.empty(), "counts after" + h);
    std::map<int, int> seen;
    for (auto it = g.begin_vertices(); it != g.end_vertices(); ++it) c.check(seen.emplace(it->first, it->second).second, "vertex iterated twice after" + h);
    c.check(seen == m.v, "vertices after" + h);
    std::map<std::pair<int, int>, int> es;
    for (auto it = g.begin_edges(); it != g.end_edges(); ++it) c.check(es.emplace(key(it->first.a, it->first.b), it->second).second, "edge iterated twice after" + h);
    c.check(es == m.e, "edges after" + h);
    for (int a = 0; a < nv; ++a)
    {
        const bool ex = m.v.count(a) != 0;
        c.check((g.find_vertex(a) != g.end_vertices()) == ex, "find vertex after" + h);
        if (ex)
        {
            c.check(g.at_vertex(a) == m.v.at(a), "vertex data after" + h);
            std::multiset<int> adj(g.begin_adjacent(a), g.end_adjacent(a)), want;
            for (const auto& [k, d] : m.e) { if (k.first == a) want.insert(k.second); else if (k.second == a) want.insert(k.first); }
            c.check(adj == want, "adjacency of " + std::to_string(a) + " after" + h);
        }
        for (int b = 0; b < nv; ++b)
        {
            const bool ee = m.e.count(key(a, b)) != 0;
            c.check((g.find_edge(G::make_edge_id(a, b)) != g.end_edges()) == ee, "find edge after" + h);
            if (ee) c.check(g.at_edge({a, b}) == m.e.at(key(a, b)), "edge data after" + h);
        }
    }
}
MC_MODEL(histories, "3 vertices, all histories of 4 insertions/removals of vertices, edges (also loops) and clear, then all of 8 (thorough 10) up to equal states", 8)
{
    constexpr int nv = 3;
    // alphabet: insert v (3), erase v (3), insert edge (6 unordered, alternating direction), erase edge (6), clear
    static const std::vector<std::pair<int, int>> pairs{{0, 1}, {2, 0}, {1, 2}, {0, 0}, {1, 1}, {1, 0}};
    const int A = 3 + 3 + 6 + 6 + 1;
    const int op0 = c.choose(A);
    G g;
    model m;
    std::string h;
    const int depth = c.thorough ? 10 : 8;
    int data = 10;
    for (int d = 0; d < depth; ++d)
    {
        int op = d == 0 ? op0 : c.choose(A);
        ++data;
        c.step();
        if (op < 3)
        {
            h += " V" + std::to_string(op);
            const auto r = g.insert_vertex(op, data);
            const bool ins = m.v.emplace(op, data).second;
            c.check(r.second == ins && r.first->first == op && r.first->second == m.v.at(op), "insert vertex result after" + h);
        }
        else if ((op -= 3) < 3)
        {
            h += " v" + std::to_string(op);
            const bool want = m.v.erase(op) != 0;
            c.check(g.erase_vertex(op) == want, "erase vertex result after" + h);
            for (auto it = m.e.begin(); it != m.e.end();) { if (it->first.first == op || it->first.second == op) it = m.e.erase(it); else ++it; }
        }
        else if ((op -= 3) < 6)
        {
            const auto [a, b] = pairs[op];
            h += " E" + std::to_string(a) + std::to_string(b);
            const auto r = g.insert_edge(a, b, data);
            if (m.v.count(a) && m.v.count(b))
            {
                const bool ins = m.e.emplace(key(a, b), data).second;
                c.check(r.second == ins && r.first->second == m.e.at(key(a, b)), "insert edge result after" + h);
            }
            else c.check(!r.second, "edge inserted without its ends after" + h);
        }
        else if ((op -= 6) < 6)
        {
            const auto [a, b] = pairs[op];
            h += " e" + std::to_string(a) + std::to_string(b);
            const bool want = m.e.erase(key(a, b)) != 0;
            c.check(g.erase_edge({b, a}) == want, "erase edge result after" + h);
        }
        else
        {
            h += " clear";
            g.clear();
            m = {};
        }
        compare(c, g, m, nv, h);
        uint64_t s = 0;
        for (auto& [k, x] : m.v) s = mc::hash_mix(s, k + 1);
        for (auto& [k, x] : m.e) s = mc::hash_mix(s, 100 + 10 * k.first + k.second);
        // the same abstract state reached with the same remaining depth need not be expanded again, except that
        // adjacency order may differ: keep the order in the state
        for (auto& [k, x] : m.v) for (auto it = g.begin_adjacent(k); it != g.end_adjacent(k); ++it) s = mc::hash_mix(s, static_cast<uint64_t>(*it + 7));
        if (!c.fresh(mc::hash_mix(s, d)) && d >= 3) c.prune();
    }
    c.sample(h);
}
MC_MODEL(larger_graphs, "all graphs on 4 (thorough 5) vertices: build, then remove each vertex or edge in every order of two", 8)
{
    const int n = c.thorough ? 5 : 4;
    const int E = n * (n - 1) / 2;
    const int mask = c.choose(1 << E);
    G g;
    model m;
    for (int i = 0; i < n; ++i) { g.insert_vertex(i, 100 + i); m.v[i] = 100 + i; }
    int b = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++b) if ((mask >> b) & 1) { g.insert_edge(j, i, b); m.e[{i, j}] = b; }
    std::string h = " graph " + std::to_string(mask);
    compare(c, g, m, n, h);
    for (int k = 0; k < 2; ++k)
    {
        const int v = c.choose(n);
        h += " remove " + std::to_string(v);
        c.step();
        g.erase_vertex(v);
        m.v.erase(v);
        for (auto it = m.e.begin(); it != m.e.end();) { if (it->first.first == v || it->first.second == v) it = m.e.erase(it); else ++it; }
        compare(c, g, m, n, h);
    }
    c.state(h);
}
MC_MODEL(search, "all graphs on 4 (thorough 5) vertices, both searches from every start: each reachable vertex once, breadth-first by distance", 8)
{
    const int n = c.thorough ? 5 : 4;
    const int E = n * (n - 1) / 2;
    const int mask = c.choose(1 << E), start = c.choose(n);
    G g;
    std::vector<std::vector<int>> dist(n, std::vector<int>(n, 99));
    for (int i = 0; i < n; ++i) { g.insert_vertex(i, i); dist[i][i] = 0; }
    int b = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++b) if ((mask >> b) & 1) { g.insert_edge(i, j, b); dist[i][j] = dist[j][i] = 1; }
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) dist[i][j] = std::min(dist[i][j], dist[i][k] + dist[k][j]);
    const auto run = [&](auto it, bool bfs, const std::string& what) {
        std::set<int> seen;
        int last = 0;
        while (!it.end())
        {
            const auto v = it.next();
            c.step();
            c.check(seen.insert(v->first).second, what + ": vertex visited twice, graph " + std::to_string(mask));
            c.check(dist[start][v->first] < 99, what + ": unreachable vertex visited, graph " + std::to_string(mask));
            if (bfs) { c.check(dist[start][v->first] >= last, what + ": not by distance, graph " + std::to_string(mask)); last = dist[start][v->first]; }
        }
        for (int j = 0; j < n; ++j) c.check((dist[start][j] < 99) == (seen.count(j) != 0), what + ": vertex missed, graph " + std::to_string(mask));
        c.check(it.discovered() == seen.size(), what + ": discovered count");
    };
    const auto& cg = g;
    run(breadth_first_iterator<G>{cg, cg.find_vertex(start)}, true, "breadth-first");
    run(depth_first_iterator<G>{cg, cg.find_vertex(start)}, false, "depth-first");
    c.state(mc::hash_mix(mask, start));
}
MC_MODEL(pairs, "all quadruples over {0,1,2}: equality, order and hash of unordered pairs", 1)
{
    const int a = c.choose(3), b = c.choose(3), d = c.choose(3), e = c.choose(3);
    const undirected_pair<int> p{a, b}, q{d, e};
    c.step(4);
    const auto k = key(a, b), l = key(d, e);
    c.check((p == q) == (k == l) && (p != q) == (k != l), "pair equality");
    c.check((p < q) == (k < l) && (p > q) == (k > l) && (p <= q) == (k <= l) && (p >= q) == (k >= l), "pair order");
    if (k == l) c.check(std::hash<undirected_pair<int>>{}(p) == std::hash<undirected_pair<int>>{}(q), "pair hash");
    c.check(p.smaller_element() == k.first && p.bigger_element() == k.second, "smaller and bigger element");
    c.check(p.other_element(a) == b && p.other_element(b) == a, "other element");
    bool threw = false;
    try { (void)p.other_element(7); } catch (const std::invalid_argument&) { threw = true; }
    c.check(threw, "other element of a stranger");
    c.state(static_cast<uint64_t>(((a * 3 + b) * 3 + d) * 3 + e));
}
