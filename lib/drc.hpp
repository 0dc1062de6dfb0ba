// The design rules of gate-level layouts, read off the reference of glm.hpp.
#ifndef VERIF_DRC_HPP
#define VERIF_DRC_HPP
#include "glm.hpp"

// what the rules say; entries are tiles
struct findings
{
    int                   drvs{0}, warnings{0}, slack{0};  // slack: findings the rules leave open
    std::set<std::string> tiles{}, open{};
};
static std::string ts(const std::optional<P>& p) { return p ? "(" + std::to_string(p->x) + "," + std::to_string(p->y) + "," + std::to_string(p->z) + ")" : "dead"; }
enum rule { UNPLACED, DEAD, ADJ, MISSING, CROSS, CLOCK, HASIO, EMPTYIO, PINS, BORDER, RULES };
static const char* KEY[] = {"Unplaced nodes", "Dead placed nodes", "Non adjacent connections", "Missing connections", "Wires crossing gates", "Improperly clocked tiles", "I/O counts", "Empty I/O ports", "Gate I/O ports", "Border I/O ports"};

static bool empty(const model& m)
{
    for (const auto& n : m.v) if (n.live && n.at) return false;
    return true;
}
static findings expected(const model& m, int r)
{
    findings f;
    if (empty(m)) return f;
    const auto border = [&](const P& p) { return p.x == 0 || p.y == 0 || p.x == m.g.mx || p.y == m.g.my; };
    const auto is_po  = [&](int n) { return std::find(m.outs.begin(), m.outs.end(), n) != m.outs.end(); };
    for (int i = 0; i < static_cast<int>(m.v.size()); ++i)
    {
        const auto& n = m.v[i];
        if (!n.live) continue;
        if (r == UNPLACED && !n.at) ++f.warnings;
        if (!n.at) continue;
        const auto put = [&](const std::optional<P>& p) { f.tiles.insert(ts(p)); };
        if (r == ADJ)
            for (const auto& s : n.in)
                if (m.at(s) < 0 || !m.flat_adj(*n.at, s)) { ++f.drvs; put(n.at); put(m.at(s) < 0 ? std::optional<P>{} : s); }
        if (r == CLOCK)
            for (const auto& s : n.in)
            {
                if (m.at(s) < 0) { ++f.slack; f.open.insert(ts(n.at)); continue; }
                if (!m.feeds(s, *n.at)) { ++f.drvs; put(n.at); put(s); }
            }
        if (r == MISSING && ((m.fanin(i, true).empty() && !n.pi) || (m.fanout(i, true).empty() && !is_po(i)))) { ++f.drvs; put(n.at); }
        if (r == CROSS && n.f == BUF && n.at->z == 1)
            if (const auto b = m.at({n.at->x, n.at->y, 0}); b < 0 || m.v[b].f != BUF) { ++f.drvs; put(n.at); }
    }
    if (r == HASIO) f.drvs = static_cast<int>(m.ins.empty()) + static_cast<int>(m.outs.empty());
    for (const auto* l : {&m.ins, &m.outs})
        for (int i : *l)
        {
            const auto& n = m.v[i];
            if (r == EMPTYIO && !n.at) { ++f.drvs; f.tiles.insert("dead"); }
            if (r == BORDER && n.at && !border(*n.at)) { ++f.warnings; f.tiles.insert(ts(n.at)); }
            if (r == BORDER && !n.at) ++f.slack;
            if (r == PINS && n.f != BUF) { ++f.warnings; f.tiles.insert(ts(n.at)); }
        }
    return f;
}
#endif
