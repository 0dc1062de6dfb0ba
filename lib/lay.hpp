// Design rules and function of finished gate-level layouts, checked tile by tile.
#ifndef VERIF_LAY_HPP
#define VERIF_LAY_HPP
#include "net.hpp"
#include "topo.hpp"
#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <fiction/traits.hpp>
#include <array>
#include <set>
#include <sstream>

namespace lay
{
using topo::P;
template <class L> P at(const fiction::tile<L>& t) { return {static_cast<int>(t.x), static_cast<int>(t.y), static_cast<int>(t.z)}; }
template <class L> std::vector<fiction::tile<L>> children(const L& l, uint64_t n)
{
    std::vector<fiction::tile<L>> r;
    const auto f = [&](const auto& s) { r.push_back(static_cast<fiction::tile<L>>(s)); };  // all adjacent sources, clocked properly or not
    l.template foreach_fanin<decltype(f), false>(n, decltype(f)(f));
    return r;
}
struct opts
{
    bool border{true};      // inputs and outputs at the border
    bool sides{true};       // at most one connection per side of a tile
    int  max_wire_fanout{3};
    int  unread_inputs{0};  // inputs of the design nothing reads
};
// every rule a finished layout has to meet; empty if it does
template <class L> std::string errors(const L& l, const topo::geo& g, const opts& o = {})
{
    std::set<uint64_t> placed;
    std::map<uint64_t, int> readers;
    std::map<std::pair<int, int>, std::array<int, 8>> side;
    std::string e;
    const auto bad = [&](const std::string& w, const P& p) { if (e.empty()) e = w + " at " + topo::str(p); };
    const int  mx = static_cast<int>(l.x()), my = static_cast<int>(l.y()), mz = static_cast<int>(l.z());
    if (mx != g.mx || my != g.my || mz != g.mz) return "extent";
    for (int z = 0; z <= mz; ++z)
        for (int y = 0; y <= my; ++y)
            for (int x = 0; x <= mx; ++x)
            {
                const fiction::tile<L> t(x, y, z);
                if (l.is_empty_tile(t)) continue;
                const P    p{x, y, z};
                const auto n = l.get_node(t);
                if (l.is_dead(n)) bad("a dead gate is placed", p);
                if (!placed.insert(n).second) bad("a gate is placed twice", p);
                if (l.get_tile(n) != t) bad("a gate believes to be elsewhere than", p);
                const auto& ch = children(l, n);
                std::set<P> seen;
                for (const auto& s : ch)
                {
                    const P q = at<L>(s);
                    if (!g.in(q) || l.is_empty_tile(s)) { bad("a source is missing", p); continue; }
                    if (!seen.insert(q).second) bad("the same source twice", p);
                    int dir = -1;
                    for (int d : g.adj_dirs()) { const auto r = g.raw({x, y, 0}, d); if (r && r->x == q.x && r->y == q.y) dir = d; }
                    if (dir < 0) { bad("a source is not adjacent", p); continue; }
                    if ((l.get_clock_number(s) + 1) % l.num_clocks() != l.get_clock_number(t)) bad("a source is not clocked one phase earlier", p);
                    ++readers[l.get_node(s)];
                    side[{x, y}][dir]++;
                    side[{q.x, q.y}][topo::opp(dir)]++;
                }
                const bool pi = l.is_pi(n), po = l.is_po(n);
                const auto want = pi ? 0u : l.node_function(n).num_vars();
                if (ch.size() != want) bad("a gate of " + std::to_string(want) + " inputs has " + std::to_string(ch.size()) + " connections", p);
                if (z > 0)
                {
                    if (!l.is_wire(n)) bad("a gate in the crossing layer", p);
                    const fiction::tile<L> b(x, y, 0);
                    if (l.is_empty_tile(b) || !l.is_wire(l.get_node(b))) bad("a crossing over no wire", p);
                    if (!l.is_empty_tile(b) && (pi || po || l.is_pi(l.get_node(b)) || l.is_po(l.get_node(b)))) bad("a crossing of inputs or outputs", p);
                }
                if (o.border && (pi || po) && x != 0 && y != 0 && x != mx && y != my) bad("an input or output in the middle", p);
            }
    int unread = o.unread_inputs;
    for (auto n : placed)
    {
        const int r = readers[n];
        const P   p = at<L>(l.get_tile(n));
        if (r == 0 && l.is_pi(n) && --unread >= 0) continue;
        if (r == 0 && !l.is_po(n)) bad("nothing reads a gate", p);
        if (r > 0 && l.is_po(n)) bad("an output is read", p);
        if (r > 1 && !(l.is_wire(n) && r <= o.max_wire_fanout)) bad("a gate is read " + std::to_string(r) + " times", p);
    }
    if (o.sides)
        for (const auto& [p, s] : side)
            for (int d = 0; d < 8; ++d)
                if (s[d] > 1) bad("two signals cross the same side", {p.first, p.second, d});
    std::ostringstream              none;  // connections to elsewhere are only visible to the checker (C26)
    fiction::gate_level_drv_params  dp{};
    fiction::gate_level_drv_stats   ds{};
    dp.missing_connections = o.unread_inputs == 0;
    dp.out = &none;
    dp.has_io = false;
    fiction::gate_level_drvs(l, dp, &ds);
    if (ds.drvs > 0 && e.empty()) e = "the checker finds " + ds.report.dump();
    l.foreach_node([&](const auto& n) { if (!l.is_constant(n) && !placed.count(n)) bad("a gate is not placed", {static_cast<int>(n), 0, 0}); });
    return e;
}
// function by the names of the inputs and outputs
template <class L> std::string function_errors(const L& l, const net::desc& d, const std::vector<std::string>& in, const std::vector<std::string>& out)
{
    net::walker<L> w(l);
    if (w.pis != d.pis) return "it has " + std::to_string(w.pis) + " inputs instead of " + std::to_string(d.pis);
    const auto               o = w.outputs();
    if (!w.error.empty()) return w.error;
    std::vector<std::string> gi, go;
    for (int i = 0; i < w.pis; ++i) gi.push_back(l.get_input_name(static_cast<uint32_t>(i)));
    for (std::size_t i = 0; i < o.size(); ++i) go.push_back(l.get_output_name(static_cast<uint32_t>(i)));
    if (o.size() != d.pos.size()) return "it has " + std::to_string(o.size()) + " outputs instead of " + std::to_string(d.pos.size());
    const auto e = d.outputs();
    // position of the i-th network input among the layout's
    std::vector<int> pos;
    for (int i = 0; i < d.pis; ++i)
    {
        int k = -1;
        for (int j = 0; j < d.pis; ++j) if (gi[j] == in[i]) k = k < 0 ? j : -2;
        if (k < 0) return "input " + in[i] + " is missing or there twice";
        pos.push_back(k);
    }
    for (std::size_t i = 0; i < e.size(); ++i)
    {
        int k = -1;
        for (std::size_t j = 0; j < o.size(); ++j) if (go[j] == out[i]) k = k < 0 ? static_cast<int>(j) : -2;
        if (k < 0) return "output " + out[i] + " is missing or there twice";
        for (int x = 0; x < (1 << d.pis); ++x)
        {
            int y = 0;
            for (int q = 0; q < d.pis; ++q) if ((x >> q) & 1) y |= 1 << pos[q];
            if (((e[i] >> x) & 1) != ((o[k] >> y) & 1)) return "output " + out[i] + " computes another function";
        }
    }
    return "";
}
inline std::vector<std::string> names(const char* p, std::size_t n)
{
    std::vector<std::string> r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(p + std::to_string(i));
    return r;
}
template <class L> std::string dump(const L& l)
{
    std::string r;
    l.foreach_node([&](const auto& n) {
        if (l.is_constant(n)) return;
        r += " " + topo::str(at<L>(l.get_tile(n))) + (l.is_pi(n) ? "pi" : l.is_po(n) ? "po" : l.is_wire(n) ? "w" : "g" + kitty::to_hex(l.node_function(n))) + "<";
        for (const auto& s : children(l, n)) r += topo::str(at<L>(s));
        r += ">";
    });
    return r;
}
}  // namespace lay
#endif
