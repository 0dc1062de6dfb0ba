// C13: the vendored graph coloring engines on all small graphs, with every outcome of their random choices.
#include <memory>
#include <functional>
#include <string>
#include <vector>
#include "mc.hpp"
#include <dsatur.hpp>
#include <lmxrlf.hpp>
#include <mcs.hpp>
#include <tabucol.hpp>
#include <algorithm>
#include <map>
#include <numeric>
#include <set>

using graph_t = std::map<std::string, std::vector<std::string>>;

// ---- the random numbers of the engines are choices of the explorer
static mc::ctx* rnd = nullptr;
static int      rnd_left = 0, rnd_lcm = 1;
static uint64_t rnd_tail = 0;
extern "C" int  rand()
{
    if (rnd != nullptr && rnd_left > 0)
    {
        --rnd_left;
        return rnd->choose(rnd_lcm);
    }
    rnd_tail = rnd_tail * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<int>(rnd_tail >> 40);
}
extern "C" void srand(unsigned) {}

struct adj
{
    int                            n;
    std::vector<std::vector<bool>> e;
};
static adj graph_of(int n, int mask)
{
    adj g{n, std::vector<std::vector<bool>>(static_cast<std::size_t>(n), std::vector<bool>(static_cast<std::size_t>(n)))};
    int b = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j, ++b) if ((mask >> b) & 1) g.e[i][j] = g.e[j][i] = true;
    return g;
}
static graph_t named(const adj& g, bool doubled)
{
    graph_t r;
    for (int i = 0; i < g.n; ++i)
    {
        auto& l = r[std::to_string(i)];
        for (int k = 0; k < (doubled ? 2 : 1); ++k) for (int j = 0; j < g.n; ++j) if (g.e[i][j]) l.push_back(std::to_string(j));
    }
    return r;
}
static int chromatic(const adj& g)
{
    for (int k = 1;; ++k)
    {
        std::vector<int> col(static_cast<std::size_t>(g.n), 0);
        std::function<bool(int)> rec = [&](int v) {
            if (v == g.n) return true;
            for (int c = 0; c < std::min(k, v + 1); ++c)
            {
                bool ok = true;
                for (int u = 0; u < v; ++u) if (g.e[u][v] && col[u] == c) ok = false;
                if (ok) { col[v] = c; if (rec(v + 1)) return true; }
            }
            return false;
        };
        if (rec(0)) return k;
    }
}
static bool chordal(const adj& g)  // repeatedly remove a vertex whose neighbours form a clique
{
    std::vector<bool> gone(static_cast<std::size_t>(g.n));
    for (int r = 0; r < g.n; ++r)
    {
        bool found = false;
        for (int v = 0; v < g.n && !found; ++v)
        {
            if (gone[v]) continue;
            bool simp = true;
            for (int a = 0; a < g.n; ++a) for (int b = a + 1; b < g.n; ++b) if (!gone[a] && !gone[b] && g.e[v][a] && g.e[v][b] && !g.e[a][b]) simp = false;
            if (simp) { gone[v] = true; found = true; }
        }
        if (!found) return false;
    }
    return true;
}
static void judge(mc::ctx& c, const adj& g, GraphColoring::GraphColor& eng, const std::map<std::string, int>& col, const std::string& what)
{
    c.check(static_cast<int>(col.size()) == g.n, "not every vertex has a color: " + what);
    std::set<int> used;
    for (int i = 0; i < g.n; ++i)
    {
        const auto it = col.find(std::to_string(i));
        c.check(it != col.end() && it->second >= 0 && it->second < g.n + 20, "no or undefined color: " + what);
        used.insert(it->second);
        c.check(eng.get_color(std::to_string(i)) == it->second, "reported color differs: " + what);
        for (int j = 0; j < i; ++j) if (g.e[i][j]) c.check(it->second != col.at(std::to_string(j)), "edge with equal ends: " + what);
    }
    c.check(eng.get_coloring() == col, "stored coloring differs: " + what);
    c.check(eng.is_colored(), "not reported as colored: " + what);
    c.check(eng.is_valid(), "valid coloring reported invalid: " + what);
    c.check(eng.get_num_colors() == static_cast<int>(used.size()), "number of colors differs from the colors used: " + what, std::to_string(eng.get_num_colors()) + " vs " + std::to_string(used.size()));
    c.check(eng.get_color("stranger") == -1, "color of a stranger: " + what);
}
static std::string show(const adj& g, int mask) { return std::to_string(g.n) + " vertices, graph " + std::to_string(mask); }

MC_MODEL(deterministic_engines, "all labelled graphs on 1..5 (thorough 6) vertices, neighbour lists single and doubled, MCS and DSATUR; MCS exact on chordal, DSATUR on bipartite graphs", 8)
{
    const int top = c.choose(8);  // low bits of the graph, for the distribution of work
    const int n = c.range(1, c.thorough ? 6 : 5);
    const int E = n * (n - 1) / 2;
    int mask = 0;
    if (E <= 3) { if (top >= (1 << E)) c.prune(); mask = top; }
    else mask = top | (c.choose(1 << (E - 3)) << 3);
    const bool dbl = c.flip();
    const adj g = graph_of(n, mask);
    const int chi = chromatic(g);
    const std::string what = show(g, mask) + (dbl ? " doubled" : "");
    {
        GraphColoring::Mcs e{named(g, dbl)};
        const auto col = e.color();
        c.step();
        judge(c, g, e, col, "MCS " + what);
        if (chordal(g)) c.check(e.get_num_colors() == chi, "MCS not minimal on a chordal graph: " + what);
    }
    {
        GraphColoring::Dsatur e{named(g, dbl)};
        const auto col = e.color();
        c.step();
        judge(c, g, e, col, "DSATUR " + what);
        if (chi <= 2) c.check(e.get_num_colors() == chi, "DSATUR not minimal on a bipartite graph: " + what);
    }
    c.state(mc::hash_mix(static_cast<uint64_t>(n * 2 + dbl), static_cast<uint64_t>(mask)));
    c.sample(what + ": " + std::to_string(chi) + " colors needed");
}
MC_MODEL(recoloring, "all graphs on 4 vertices: an engine colors, is given another of 64 graphs, and colors again", 8)
{
    const int m1 = c.choose(64), m2 = c.choose(64), which = c.choose(2);
    const adj a = graph_of(4, m1), b = graph_of(4, m2);
    std::unique_ptr<GraphColoring::GraphColor> e;
    if (which == 0) e = std::make_unique<GraphColoring::Mcs>(named(a, false));
    else e = std::make_unique<GraphColoring::Dsatur>(named(a, false));
    auto col = e->color();
    judge(c, a, *e, col, "first " + std::to_string(m1));
    // a coloring of one graph must not be called valid for another in which an edge joins equal colors
    e->set_graph(named(b, false));
    bool proper = true;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (b.e[i][j] && col.at(std::to_string(i)) == col.at(std::to_string(j))) proper = false;
    c.check(e->is_valid() == proper, "validity of a given coloring " + std::to_string(m1) + " on " + std::to_string(m2));
    col = e->color();
    c.step(2);
    if (which == 1) judge(c, b, *e, col, "DSATUR again " + std::to_string(m1) + " then " + std::to_string(m2));
    c.state(static_cast<uint64_t>((m1 * 64 + m2) * 2 + which));
}
MC_MODEL(lmxrlf, "all graphs on 1..4 vertices, first 3 (thorough 4) random choices enumerated completely, then 3 tails", 8)
{
    const int first = c.choose(64);
    const int n = c.range(1, 4);
    const int E = n * (n - 1) / 2;
    if (first >= (1 << E)) c.prune();
    const adj g = graph_of(n, first);
    rnd_tail = static_cast<uint64_t>(c.choose(3)) * 7919;
    rnd = &c;
    rnd_left = c.thorough ? 4 : 3;
    rnd_lcm = n <= 2 ? n : n == 3 ? 6 : 12;
    GraphColoring::Lmxrlf e{named(g, false), 0, 2, 1, 2};
    const auto col = e.color();
    rnd = nullptr;
    c.step();
    judge(c, g, e, col, "LMXRLF " + show(g, first));
    uint64_t h = static_cast<uint64_t>(first * 8 + n);
    for (auto& [k, v] : col) h = mc::hash_mix(h, static_cast<uint64_t>(v));
    c.state(h);
}
MC_MODEL(lmxrlf_defaults, "all graphs on 4 (thorough 5) vertices with the default parameters, first random choice enumerated", 8)
{
    const int n = c.thorough ? 5 : 4;
    const int mask = c.choose(1 << (n * (n - 1) / 2));
    const adj g = graph_of(n, mask);
    rnd_tail = 17;
    rnd = &c;
    rnd_left = 1;
    rnd_lcm = c.thorough ? 5 : 12;
    GraphColoring::Lmxrlf e{named(g, true)};
    const auto col = e.color();
    rnd = nullptr;
    c.step();
    judge(c, g, e, col, "LMXRLF defaults " + show(g, mask));
    c.state(static_cast<uint64_t>(mask));
}
MC_MODEL(tabucol, "all graphs on 1..4 vertices, 1..5 colors allowed, first 4 (thorough 5) random choices enumerated, then 2 tails, bounded iterations", 8)
{
    const int first = c.choose(64);
    const int n = c.range(1, 4);
    const int E = n * (n - 1) / 2;
    if (first >= (1 << E)) c.prune();
    const int k = c.range(1, n + 1);
    const adj g = graph_of(n, first);
    rnd_tail = static_cast<uint64_t>(c.choose(2)) * 104729;
    rnd = &c;
    rnd_left = c.thorough ? 5 : 4;
    rnd_lcm = k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 3 : 4;
    GraphColoring::Tabucol e{named(g, false), k, 3, 6, 40};
    const auto col = e.color();
    rnd = nullptr;
    c.step();
    const std::string what = "TABUCOL k=" + std::to_string(k) + " " + show(g, first);
    if (col.empty()) { c.check(chromatic(g) > 1 || k < 1, "gave up on a graph without edges: " + what); c.check(!e.is_valid(), "gave up but claims validity: " + what); }
    else
    {
        judge(c, g, e, col, what);
        c.check(e.get_num_colors() <= k, "more colors than allowed: " + what);
    }
    uint64_t h = static_cast<uint64_t>((first * 8 + n) * 8 + k);
    for (auto& [a, v] : col) h = mc::hash_mix(h, static_cast<uint64_t>(v));
    c.state(h);
}
