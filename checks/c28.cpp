// C28: critical path and throughput against all paths of small designs; gate statistics and bounding boxes against the occupied tiles.
#include "glm.hpp"
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/layouts/bounding_box.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/networks/technology_network.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/types.hpp>
#include "net.hpp"

template <class L> static void judge(mc::ctx& c, const session<L>& s)
{
    const auto e = reference(s.m);
    const auto g = critical_path_length_and_throughput(*s.l);
    c.check(g.critical_path_length == e.length, "critical path length", s.log + ": " + std::to_string(g.critical_path_length) + " instead of " + std::to_string(e.length));
    c.check(g.throughput == e.throughput, "throughput", s.log + ": 1/" + std::to_string(g.throughput) + " instead of 1/" + std::to_string(e.throughput));
    // statistics
    count_gate_types_stats st{};
    count_gate_types(*s.l, &st);
    const uint64_t num[NFN] = {st.num_buf, st.num_inv, st.num_and2, st.num_nand2, st.num_or2, st.num_nor2, st.num_lt2, st.num_ge2, st.num_gt2, st.num_le2, st.num_xor2, st.num_xnor2, st.num_maj3};
    uint64_t cnt[NFN]{}, fan = 0;
    for (int i = 0; i < static_cast<int>(s.m.v.size()); ++i)
    {
        const auto& n = s.m.v[i];
        if (!n.live) continue;
        if (n.f == BUF && s.m.fanout(i, true).size() > 1) ++fan; else ++cnt[n.f];
    }
    for (int f = 0; f < NFN; ++f) c.check(num[f] == cnt[f], "number of gates of a type", s.log + ": type " + std::to_string(f) + " " + std::to_string(num[f]) + " instead of " + std::to_string(cnt[f]));
    c.check(st.num_fanout == fan, "number of fanouts", s.log);
    c.check(st.num_and3 + st.num_xor_and + st.num_or_and + st.num_onehot + st.num_gamble + st.num_dot + st.num_mux + st.num_and_xor + st.num_other == 0, "gates of other types", s.log);
    // bounding box
    int x0 = 99, y0 = 99, x1 = -1, y1 = -1;
    for (const auto& n : s.m.v) if (n.live && n.at) { x0 = std::min(x0, n.at->x); x1 = std::max(x1, n.at->x); y0 = std::min(y0, n.at->y); y1 = std::max(y1, n.at->y); }
    if (x1 >= 0)
    {
        const bounding_box_2d<L> b{*s.l};
        const auto lo = b.get_min(), hi = b.get_max();
        c.check(static_cast<int>(lo.x) == x0 && static_cast<int>(lo.y) == y0 && static_cast<int>(hi.x) == x1 && static_cast<int>(hi.y) == y1 && static_cast<int>(b.get_x_size()) == x1 - x0 && static_cast<int>(b.get_y_size()) == y1 - y0, "bounding box", s.log);
    }
    c.step(3);
}
// every feed-forward design on a small layout: each tile holds nothing, an input, an output, a wire or a gate fed by its neighbours
template <class L> static void every_design(mc::ctx& c, P ext, const char* scheme, bool inv)
{
    session<L> s{c, ext, scheme};
    const auto feed = [&](const P& t) {
        std::vector<P> r;
        for (int y = 0; y <= ext.y; ++y) for (int x = 0; x <= ext.x; ++x) { const P q{x, y, 0}; if (s.m.flat_adj(t, q) && s.m.feeds(q, t)) r.push_back(q); }
        return r;
    };
    struct spec { int kind; std::vector<P> in; };
    std::map<std::pair<int, int>, spec> pick;
    std::vector<P> ts;
    for (int y = 0; y <= ext.y; ++y) for (int x = 0; x <= ext.x; ++x) ts.push_back({x, y, 0});
    int outs = 0;
    for (const auto& t : ts)
    {
        const auto f = feed(t);
        std::vector<spec> o{{0, {}}, {1, {}}};
        for (const auto& q : f)
        {
            const auto it = pick.find({q.x, q.y});
            if (it != pick.end() && (it->second.kind == 0 || it->second.kind == 4)) continue;
            o.push_back({2, {q}});
            if (inv) o.push_back({3, {q}});
            o.push_back({4, {q}});
            for (const auto& r : f)
                if (std::pair{q.x, q.y} < std::pair{r.x, r.y})
                {
                    const auto jt = pick.find({r.x, r.y});
                    if (jt != pick.end() && (jt->second.kind == 0 || jt->second.kind == 4)) continue;
                    o.push_back({5, {q, r}});
                }
        }
        const auto& k = o[c.choose(static_cast<int>(o.size()))];
        outs += k.kind == 4;
        pick[{t.x, t.y}] = k;
        for (const auto& [w, b] : pick)  // no one reads an empty tile or an output
            for (const auto& q : b.in) if (q == t && (k.kind == 0 || k.kind == 4)) c.prune();
    }
    if (outs == 0) c.prune();
    // place in an order in which sources come first; cyclic designs have no finite path
    std::set<std::pair<int, int>> done;
    for (bool more = true; more;)
    {
        more = false;
        for (const auto& t : ts)
        {
            const auto& k = pick[{t.x, t.y}];
            if (done.count({t.x, t.y})) continue;
            bool ok = true;
            for (const auto& q : k.in) ok &= done.count({q.x, q.y}) > 0;
            if (!ok) continue;
            done.insert({t.x, t.y});
            more = true;
            if (k.kind == 1) s.pi(t);
            if (k.kind == 2) s.gate(BUF, k.in, t);
            if (k.kind == 3) s.gate(NOT, k.in, t);
            if (k.kind == 4) s.po(k.in[0], t);
            if (k.kind == 5) s.gate(AND, k.in, t);
        }
    }
    if (done.size() != ts.size()) c.prune();
    judge(c, s);
    c.sample(s.log);
}
static void pick_ext(mc::ctx& c, const std::vector<const char*>& sch, P q, P t, const char*& s, P& e)
{
    s = c.pick(sch);
    e = c.thorough ? t : q;
}
MC_MODEL(designs_wave, "every feed-forward design of inputs, wires, inverters, gates and outputs on 3x2 tiles (thorough 3x3) under 2DDWave with 3 and 4 phases", 24)
{
    const char* s; P e;
    pick_ext(c, {"2DDWAVE4", "2DDWAVE3"}, {2, 1, 0}, {2, 2, 0}, s, e);
    every_design<cart>(c, e, s, !c.thorough);
}
MC_MODEL(designs_schemes, "the same without inverters on 4x2 tiles under USE and RES (thorough 3x3, also ESR, CFE)", 24)
{
    const char* s; P e;
    pick_ext(c, c.thorough ? std::vector<const char*>{"USE", "RES", "ESR", "CFE"} : std::vector<const char*>{"USE", "RES"}, {3, 1, 0}, {2, 2, 0}, s, e);
    every_design<cart>(c, e, s, false);
}
MC_MODEL(designs_hexagonal, "the same on 2x3 hexagonal tiles under row clocking", 24) { every_design<hexl>(c, {1, 2, 0}, "ROW4", true); }

// long wires of all lengths meeting in gates: a comb of rows under 2DDWave
MC_MODEL(skew, "three or four rows of wires starting anywhere, merging anywhere with the next row: every combination on 9 columns (thorough four rows on 14)", 24)
{
    const int  W = c.thorough ? 14 : 9, R = c.thorough ? 4 : 3;
    const auto sch = c.pick(std::vector<const char*>{"2DDWAVE4", "2DDWAVE3"});
    session<cart> s{c, {W, R, 0}, sch};
    int down = 0;  // column at which the row above comes down
    int end  = 0;
    for (int r = 0; r < R; ++r)
    {
        const int start = r == 0 ? c.range(0, W - 2) : c.range(0, down);
        const bool gate = r > 0 && start < down;
        if (r > 0 && start == down)
        {   // the row above simply continues
            s.gate(BUF, {{down, r - 1, 0}}, P{down, r, 0});
        }
        else s.pi(P{start, r, 0});
        const int next = r + 1 < R ? c.range(std::max(start, down), W - 2) : std::max(start, down) + 1;
        for (int x = start + 1; x <= next; ++x)
        {
            if (gate && x == down) s.gate(r % 2 ? AND : OR, {{x - 1, r, 0}, {x, r - 1, 0}}, P{x, r, 0});
            else s.gate(BUF, {{x - 1, r, 0}}, P{x, r, 0});
        }
        if (gate && next < down) c.prune();
        down = next;
        end  = next;
        if (r + 1 < R && c.flip()) s.po({next, r, 0}, P{next + 1, r, 0});
    }
    s.po({end, R - 1, 0}, P{end + 1, R - 1, 0});
    judge(c, s);
    c.sample(s.log);
}
MC_MODEL(dead_branches, "designs with parts no output reads, unbalanced gates before and after fanouts, three-input gates", 1)
{
    session<cart> s{c, {9, 6, 1}, "2DDWAVE4"};
    const int a = c.range(0, 8), b = c.range(0, 3);
    for (int x = a; x < 9; ++x) { if (x == a) s.pi(P{x, 2, 0}); else s.gate(BUF, {{x - 1, 2, 0}}, P{x, 2, 0}); }
    s.pi(P{9, b > 1 ? 1 : 0, 0});
    if (b <= 1) s.gate(BUF, {{9, 0, 0}}, P{9, 1, 0});
    const bool three = c.flip();
    if (three) { s.pi(P{8, 1, 1}); }
    s.gate(b % 2 ? XOR : LE, {{8, 2, 0}, {9, 1, 0}}, P{9, 2, 0});
    const int what = c.range(0, 3);
    if (what & 1) s.po({9, 2, 0}, P{9, 3, 0});
    if (what & 2) { s.gate(BUF, {{9, 2, 0}}, P{9, 3, 1}); s.pi(P{8, 3, 0}); s.gate(NOR, {{9, 3, 1}, {8, 4, 0}}, P{9, 4, 0}); s.gate(BUF, {{8, 3, 0}}, P{8, 4, 0}); s.po({9, 4, 0}, P{9, 5, 0}); }
    judge(c, s);
}
// gate statistics of networks
MC_MODEL(network_statistics, "networks of up to two gates (thorough three) of all types: every type is counted once per occurrence", 24)
{
    using namespace net;
    bound b{1, 3, 0, c.thorough ? 2 : 2, {}, 1, 1};
    for (int k = 0; k < KINDS; ++k) b.kinds.push_back(k);
    b.pis_lo = b.pis_hi = c.thorough ? 3 : 2;
    const auto d = choose(c, b);
    const auto n = build<fiction::technology_network>(d);
    count_gate_types_stats st{};
    count_gate_types(n, &st);
    std::map<std::string, uint64_t> e, g{{"buf", st.num_buf}, {"not", st.num_inv}, {"and", st.num_and2}, {"or", st.num_or2}, {"nand", st.num_nand2}, {"nor", st.num_nor2}, {"xor", st.num_xor2}, {"xnor", st.num_xnor2}, {"lt", st.num_lt2}, {"gt", st.num_gt2}, {"le", st.num_le2}, {"ge", st.num_ge2}, {"and3", st.num_and3}, {"xor_and", st.num_xor_and}, {"or_and", st.num_or_and}, {"onehot", st.num_onehot}, {"maj", st.num_maj3}, {"gamble", st.num_gamble}, {"dot", st.num_dot}, {"ite", st.num_mux}, {"and_xor", st.num_and_xor}, {"other", st.num_other}, {"fanout", st.num_fanout}};
    for (auto& [k, x] : g) e[k] = 0;
    std::set<int> multi;
    for (std::size_t i = 0; i < d.gates.size(); ++i)
    {
        int fo = 0;
        for (const auto& q : d.gates) for (auto x : q.in) fo += x == 2 + d.pis + static_cast<int>(i);
        for (auto p : d.pos) fo += p == 2 + d.pis + static_cast<int>(i);
        e[d.gates[i].k == net::BUF && fo > 1 ? "fanout" : d.gates[i].k == XOR3 ? "other" : name_of(d.gates[i].k)]++;
    }
    for (auto& [k, x] : e) CK(g[k] == x, "number of gates of type " + k, d.str() + ": " + std::to_string(g[k]) + " instead of " + std::to_string(x));
    std::ostringstream o;
    st.report(o, true);
    c.sample(d.str());
}
// bounding boxes of every set of occupied positions
MC_MODEL(gate_boxes, "every set of occupied tiles of a 3x2 layout with two layers", 16)
{
    session<cart> s{c, {2, 1, 1}, "2DDWAVE4"};
    const int m = c.range(0, 4095);
    for (int i = 0; i < 12; ++i) if ((m >> i) & 1) s.pi(P{i % 3, i / 3 % 2, i / 6});
    const bounding_box_2d<cart> b0{*s.l};
    if (m == 0) c.check(b0.get_min() == tile<cart>(0, 0, 0) && b0.get_max() == tile<cart>(0, 0, 0) && b0.get_x_size() == 0 && b0.get_y_size() == 0, "box of an empty layout");
    bounding_box_2d<cart> b{*s.l};
    judge(c, s);
    // a box keeps up with its layout when asked
    if (m) { const int i = c.choose(12); if ((m >> i) & 1) s.clear({i % 3, i / 3 % 2, i / 6}); else s.pi(P{i % 3, i / 3 % 2, i / 6}); }
    b.update_bounding_box();
    const bounding_box_2d<cart> f{*s.l};
    c.check(b.get_min() == f.get_min() && b.get_max() == f.get_max() && b.get_x_size() == f.get_x_size() && b.get_y_size() == f.get_y_size(), "an updated box differs from a new one", s.log);
    judge(c, s);
}
template <class L, class Mk> static void cell_boxes(mc::ctx& c, L l, const std::vector<std::pair<int, int>>& xy, Mk mk, bool defects)
{
    const int m = c.choose(1 << xy.size());
    int dm = 0;
    if constexpr (is_sidb_defect_surface_v<L>) { if (defects) dm = c.choose(1 << std::min<size_t>(xy.size(), 4)); }
    long x0 = 1 << 30, y0 = 1 << 30, x1 = -(1 << 30), y1 = -(1 << 30);
    std::string w;
    for (size_t i = 0; i < xy.size(); ++i)
    {
        if (!((m >> i) & 1) && !((dm >> i) & 1)) continue;
        w += " (" + std::to_string(xy[i].first) + "," + std::to_string(xy[i].second) + ")";
        if ((m >> i) & 1) l.assign_cell_type(mk(xy[i]), technology<L>::cell_type::NORMAL);
        if constexpr (is_sidb_defect_surface_v<L>)
            if ((dm >> i) & 1) { l.assign_sidb_defect(mk(xy[i]), sidb_defect{sidb_defect_type::DB}); w += "d"; }
        x0 = std::min<long>(x0, xy[i].first); x1 = std::max<long>(x1, xy[i].first); y0 = std::min<long>(y0, xy[i].second); y1 = std::max<long>(y1, xy[i].second);
    }
    const bounding_box_2d<L> b{l};
    if (m == 0 && dm == 0)
    {
        c.check(b.get_min() == mk({0, 0}) && b.get_max() == mk({0, 0}) && b.get_x_size() == 0 && b.get_y_size() == 0, "box of an empty layout");
        return;
    }
    const auto lo = mk({x0, y0}), hi = mk({x1, y1});
    c.check(b.get_min() == lo && b.get_max() == hi, "box of a cell-level layout", w + ": from " + b.get_min().str() + " to " + b.get_max().str());
    c.check(b.get_x_size() == hi.x - lo.x && b.get_y_size() == hi.y - lo.y, "size of the box of a cell-level layout", w);
    c.sample(w);
}
static const std::vector<std::pair<int, int>> GRID{{0, 0}, {1, 0}, {3, 0}, {0, 1}, {2, 1}, {1, 2}, {3, 3}, {0, 5}};
static const std::vector<std::pair<int, int>> NEG{{-3, -2}, {0, 0}, {2, -1}, {-1, 1}, {1, 3}, {-2, 2}, {4, -3}};
MC_MODEL(boxes_qca, "every set of 8 cells of a QCA layout", 4) { cell_boxes(c, qca_cell_clk_lyt{{5, 5}}, GRID, [](std::pair<int, int> p) { return cell<qca_cell_clk_lyt>(p.first, p.second); }, false); }
MC_MODEL(boxes_sidb, "every set of 7 dots at positive and negative positions", 4) { cell_boxes(c, sidb_100_cell_clk_lyt_cube{}, NEG, [](std::pair<int, int> p) { return cell<sidb_100_cell_clk_lyt_cube>(p.first, p.second, 0); }, false); }
MC_MODEL(boxes_siqad, "the same in SiQAD coordinates", 4) { cell_boxes(c, sidb_100_cell_clk_lyt_siqad{}, NEG, [](std::pair<int, int> p) { return siqad::to_siqad_coord(cube::coord_t(p.first, p.second, 0)); }, false); }
MC_MODEL(boxes_defects, "every set of dots and every set of defects", 8) { using l = sidb_defect_surface<sidb_100_cell_clk_lyt_cube>; cell_boxes(c, l{}, NEG, [](std::pair<int, int> p) { return cell<l>(p.first, p.second, 0); }, true); }
MC_MODEL(boxes_siqad_defects, "every set of dots and every set of defects in SiQAD coordinates", 8) { using l = sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>; cell_boxes(c, l{}, NEG, [](std::pair<int, int> p) { return siqad::to_siqad_coord(cube::coord_t(p.first, p.second, 0)); }, true); }
MC_MODEL(boxes_offset_defects, "every set of dots and every set of defects in offset coordinates", 8) { using l = sidb_defect_surface<sidb_100_cell_clk_lyt>; cell_boxes(c, l{{5, 5}}, GRID, [](std::pair<int, int> p) { return cell<l>(p.first, p.second, 0); }, true); }
