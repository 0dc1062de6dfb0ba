// C26: the design rule checker against the rules themselves, on every small layout and every damage to finished ones.
#include "drc.hpp"
#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <sstream>

static gate_level_drv_params rules(unsigned mask, std::ostream* o)
{
    gate_level_drv_params p{};
    bool* f[] = {&p.unplaced_nodes, &p.placed_dead_nodes, &p.non_adjacent_connections, &p.missing_connections, &p.crossing_gates, &p.clocked_data_flow, &p.has_io, &p.empty_io, &p.io_pins, &p.border_io};
    for (int r = 0; r < RULES; ++r) *f[r] = (mask >> r) & 1;
    p.out = o;
    return p;
}
template <class L> static void judge(mc::ctx& c, const session<L>& s)
{
    findings e[RULES];
    for (int r = 0; r < RULES; ++r) e[r] = expected(s.m, r);
    const auto run = [&](unsigned mask) {
        std::ostringstream  o;
        gate_level_drv_stats st{};
        st.drvs = 77;  // stale contents must not survive
        gate_level_drvs(*s.l, rules(mask, &o), &st);
        int d = 0, w = 0, ds = 0, ws = 0;
        for (int r = 0; r < RULES; ++r)
        {
            const auto on = (mask >> r) & 1;
            const auto k  = std::string{KEY[r]};
            c.check(st.report.contains(k) == on, "a rule is reported exactly when it is enabled", k + "; " + s.log);
            if (!on) continue;
            d += e[r].drvs;
            w += e[r].warnings;
            (r == BORDER ? ws : ds) += e[r].slack;
            const auto& rep = st.report[k];
            if (r == HASIO)
            {
                if (!empty(s.m)) c.check(rep["Specified PIs"] == s.m.ins.size() && rep["Counted PIs"] == s.m.ins.size() && rep["Specified POs"] == s.m.outs.size() && rep["Counted POs"] == s.m.outs.size(), "numbers of inputs and outputs", s.log);
                continue;
            }
            std::set<std::string> got;
            if (r == UNPLACED)
            {
                std::set<std::size_t> want;
                if (!empty(s.m)) for (std::size_t i = 0; i < s.m.v.size(); ++i) if (s.m.v[i].live && !s.m.v[i].at) want.insert(i + 2);
                std::set<std::size_t> have;
                for (const auto& x : rep) if (!x.is_null()) have.insert(x.template get<std::size_t>());
                c.check(want == have, "unplaced nodes listed", s.log + " " + rep.dump());
                continue;
            }
            for (const auto& [key, x] : rep.items()) got.insert(key);
            auto want = e[r].tiles;
            bool dead = want.erase("dead") > 0 || e[r].slack > 0;
            if (dead)  // a missing tile is written like the one at the origin
            {
                got.erase("(0,0,0)");
                want.erase("(0,0,0)");
            }
            for (const auto& x : e[r].open) if (!want.count(x)) got.erase(x);
            c.check(got == want, "tiles listed for '" + k + "'", s.log + ": " + rep.dump());
        }
        c.check(static_cast<int>(st.drvs) >= d && static_cast<int>(st.drvs) <= d + ds, "number of violations", s.log + ": rules " + std::to_string(mask) + " found " + std::to_string(st.drvs) + " instead of " + std::to_string(d) + ": " + st.report.dump());
        c.check(static_cast<int>(st.warnings) >= w && static_cast<int>(st.warnings) <= w + ws, "number of warnings", s.log + ": rules " + std::to_string(mask) + " found " + std::to_string(st.warnings) + " instead of " + std::to_string(w) + ": " + st.report.dump());
        c.check(st.report["DRVs"] == st.drvs && st.report["Warnings"] == st.warnings, "totals in the report", s.log);
        c.step(2);
        return st;
    };
    std::size_t d = 0, w = 0;
    unsigned    clean = 0;
    for (int r = 0; r < RULES; ++r)
    {
        if (e[r].drvs + e[r].warnings + e[r].slack == 0 && !c.thorough)
        {
            clean |= 1u << r;
            continue;
        }
        const auto st = run(1u << r);
        d += st.drvs;
        w += st.warnings;
        if (c.thorough) run(((1u << RULES) - 1) & ~(1u << r));
    }
    run(clean);  // the rules nothing breaks, without the others
    const auto all = run((1u << RULES) - 1);
    c.check(all.drvs == d && all.warnings == w, "the rules together find other things than each alone", s.log);
}

// two or three nodes of any kind anywhere
template <class L> static void scattered(mc::ctx& c, P ext, const char* scheme)
{
    session<L> s{c, ext, scheme};
    std::vector<std::optional<P>> tiles;
    std::vector<P>                src;
    for (int z = 0; z <= ext.z; ++z) for (int y = 0; y <= ext.y; ++y) for (int x = 0; x <= ext.x; ++x) { tiles.push_back(P{x, y, z}); if (z == 0 || x == 0) src.push_back({x, y, z}); }
    tiles.push_back(std::nullopt);
    const int n = 3;
    for (int i = 0; i < n; ++i)
    {
        std::vector<std::function<void()>> ops;
        for (const auto& t : tiles)
        {
            if (t && s.m.at(*t) >= 0) continue;
            if (i == 2 && !c.thorough && t && t != tiles.front() && t != tiles[tiles.size() - 2] && s.m.at(*tiles[tiles.size() - 2]) < 0) continue;
            ops.push_back([&s, t] { s.pi(t); });
            for (const auto& q : src)
            {
                if (i == 2 && !c.thorough && s.m.at(q) < 0 && q.x > 0) continue;
                if (t) ops.push_back([&s, t, q] { s.po(q, *t); });
                ops.push_back([&s, t, q] { s.gate(BUF, {q}, t); });
                if (t && i < 2) ops.push_back([&s, t, q] { s.gate(NOT, {q}, t); });
                if (t && q == src.front()) ops.push_back([&s, t, q, &src] { s.gate(AND, {q, src.back()}, t); });
            }
        }
        ops[c.choose(static_cast<int>(ops.size()))]();
        if (c.again()) continue;
        judge(c, s);
        if (!c.fresh(mc::hash_mix(digest(s.m), i)) && i + 1 < n) c.prune();
    }
    c.sample(s.log);
}
MC_MODEL(any_cartesian, "three inputs, outputs, wires and gates anywhere (or nowhere) with any sources on a 2x1x2 layout; every rule that finds something alone, those that find nothing, all together (thorough also all but one)", 24) { scattered<cart>(c, {1, 0, 1}, "2DDWAVE4"); }
MC_MODEL(any_row, "the same on a 2x2 layout under USE", 24) { if (c.thorough) scattered<cart>(c, {1, 1, 1}, "USE"); else scattered<cart>(c, {1, 1, 0}, "USE"); }
MC_MODEL(any_hexagonal, "the same on a 2x2 hexagonal layout", 24) { scattered<hexl>(c, {1, 1, 0}, "2DDWAVE4"); }

// finished designs and everything that differs from them by up to two edits
template <class L> static void damaged(mc::ctx& c, int which)
{
    const std::vector<const char*> SCHM = c.thorough ? std::vector<const char*>{"2DDWAVE4", "USE", "RES", "2DDWAVE3"} : std::vector<const char*>{"2DDWAVE3", "USE"};
    session<L> s{c, which == 0 ? P{3, 1, 1} : which == 1 ? P{2, 2, 1} : P{4, 4, 1}, which == 2 ? "2DDWAVE4" : c.pick(SCHM)};
    if (which == 0)
    {
        s.pi(P{0, 0, 0}); s.pi(P{1, 1, 0}); s.gate(AND, {{0, 0, 0}, {1, 1, 0}}, P{1, 0, 0}); s.gate(NOT, {{1, 0, 0}}, P{2, 0, 0}); s.po({2, 0, 0}, P{2, 1, 0});
    }
    else if (which == 1)
    {
        s.pi(P{1, 0, 0}); s.pi(P{0, 1, 0}); s.gate(BUF, {{1, 0, 0}}, P{1, 1, 0}); s.gate(BUF, {{0, 1, 0}}, P{1, 1, 1}); s.po({1, 1, 1}, P{2, 1, 0}); s.gate(NOT, {{1, 1, 0}}, P{1, 2, 0}); s.po({1, 2, 0}, P{2, 2, 0});
    }
    else
    {
        s.pi(P{1, 0, 0}); s.pi(P{0, 1, 0}); s.gate(BUF, {{1, 0, 0}}, P{1, 1, 0}); s.gate(BUF, {{0, 1, 0}}, P{1, 1, 1}); s.gate(BUF, {{1, 1, 1}}, P{2, 1, 0}); s.gate(BUF, {{1, 1, 0}}, P{1, 2, 0}); s.gate(BUF, {{2, 1, 0}}, P{2, 2, 0});
        s.gate(AND, {{1, 2, 0}, {2, 2, 0}}, P{2, 3, 0}); s.po({2, 3, 0}, P{3, 3, 0}); s.po({2, 2, 0}, P{3, 2, 0});
        if (!c.again()) { judge(c, s); }
    }
    const int depth = which == 2 && !c.thorough ? 1 : 2;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::function<void()>> ops;
        auto e = s.empties();
        if (d > 0 && !c.thorough) e = {e.front(), e.back()};
        ops.push_back([] {});
        for (int n : s.live())
        {
            const auto old = s.m.v[n].in;
            for (const auto& t : e) ops.push_back([&s, n, t, old] { s.move(n, t, old); });
            if (s.m.v[n].at)
            {
                ops.push_back([&s, n] { s.move(n, std::nullopt, {}); });
                if (!old.empty()) ops.push_back([&s, n] { s.move(n, s.m.v[n].at, {}); });
                if (old.size() == 2) ops.push_back([&s, n, old] { s.move(n, s.m.v[n].at, {old[1]}); });
            }
            if (!s.m.v[n].pi && old.size() < 3) for (const auto& p : {P{1, 0, 0}, P{0, 1, 0}, P{1, 1, 0}, P{1, 1, 1}}) ops.push_back([&s, n, p] { s.connect(p, n); });
        }
        for (size_t n = 0; n < s.m.v.size(); ++n) if (s.m.v[n].at) ops.push_back([&s, t = *s.m.v[n].at] { s.clear(t); });
        for (const auto& t : e)
        {
            ops.push_back([&s, t] { s.pi(t); });
            ops.push_back([&s, t] { s.po({1, 1, 0}, t); });
            ops.push_back([&s, t] { s.gate(BUF, {{1, 1, 0}}, t); });
            ops.push_back([&s, t] { s.gate(XOR, {{1, 0, 0}, {1, 1, 0}}, t); });
        }
        ops[c.choose(static_cast<int>(ops.size()))]();
        if (c.again()) continue;
        judge(c, s);
        if (!c.fresh(mc::hash_mix(digest(s.m), d)) && d + 1 < depth) c.prune();
    }
    c.sample(s.log);
}
MC_MODEL(damaged_gate, "a gate with an inverter (2DDWave and USE, thorough 4 schemes) and everything at most two edits away", 24) { damaged<cart>(c, 0); }
MC_MODEL(damaged_crossing, "two crossing wires (2DDWave and USE, thorough 4 schemes) and everything at most two edits away", 24) { damaged<cart>(c, 1); }
MC_MODEL(damaged_hexagonal, "the same cells on a hexagonal layout", 24) { damaged<hexl>(c, 1); }
MC_MODEL(damaged_large, "a crossing, a fanout and a gate on 5x5 and everything one edit (thorough two) away", 24) { damaged<cart>(c, 2); }
MC_MODEL(nothing, "layouts on which nothing is placed", 1)
{
    session<cart> s{c, {c.range(0, 1), 1, 1}, "2DDWAVE4"};
    const int k = c.range(0, 3);
    if (k & 1) s.pi(std::nullopt);
    if (k & 2) s.gate(AND, {{0, 0, 0}, {0, 1, 0}}, std::nullopt);
    judge(c, s);
    s.pi(P{0, 0, 0});
    judge(c, s);
    s.clear({0, 0, 0});
    judge(c, s);
}
