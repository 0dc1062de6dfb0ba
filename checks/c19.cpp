// C19: obstruction, synchronisation-element and defect layers under every edit history against plain sets and maps.
#include "mc.hpp"
#include "topo.hpp"
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/traits.hpp>
#include <memory>

using namespace fiction;
using topo::P;
using cart  = cartesian_layout<offset::ucoord_t>;
using hexl  = hexagonal_layout<offset::ucoord_t, even_row_hex>;
using clk   = clocked_layout<cart>;
using gate  = gate_level_layout<clocked_layout<tile_based_layout<cart>>>;
using qca   = cell_level_layout<qca_technology, clocked_layout<cart>>;

// ---------------------------------------------------------------- obstructions
template <class L> static L make()
{
    if constexpr (is_gate_level_layout_v<L> || is_clocked_layout_v<L>) return L{aspect_ratio<L>{2, 0, 1}, twoddwave_clocking<L>()};
    else return L{aspect_ratio<L>{2, 0, 1}};
}
template <class L> static void obstructions(mc::ctx& c)
{
    using O = obstruction_layout<L>;
    using C = coordinate<L>;
    const auto base = make<L>();
    O          o{base};
    const std::vector<C> at{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {1, 0, 1}};
    std::set<int>                 oc, occ;  // obstructed, occupied
    std::set<std::pair<int, int>> on, wires;
    std::string log;
    const int   depth = c.thorough ? 5 : 4;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::pair<std::string, std::function<void()>>> ops;
        for (int i = 0; i < 4; ++i)
        {
            ops.push_back({"obstruct " + std::to_string(i), [&, i] { o.obstruct_coordinate(at[i]); oc.insert(i); }});
            ops.push_back({"free " + std::to_string(i), [&, i] { o.clear_obstructed_coordinate(at[i]); oc.erase(i); }});
        }
        for (const auto& p : {std::pair{0, 1}, std::pair{1, 0}, std::pair{1, 2}})
        {
            ops.push_back({"obstruct wire " + std::to_string(p.first) + std::to_string(p.second), [&, p] { o.obstruct_connection(at[p.first], at[p.second]); on.insert(p); }});
            ops.push_back({"free wire " + std::to_string(p.first) + std::to_string(p.second), [&, p] { o.clear_obstructed_connection(at[p.first], at[p.second]); on.erase(p); }});
        }
        ops.push_back({"free all", [&] { o.clear_obstructed_coordinates(); oc.clear(); }});
        ops.push_back({"free all wires", [&] { o.clear_obstructed_connections(); on.clear(); }});
        ops.push_back({"copy", [&] { O k{o}; o = k; }});
        if constexpr (is_gate_level_layout_v<L>)
        {
            if (!occ.count(0)) ops.push_back({"place 0", [&] { o.create_pi("a", at[0]); occ.insert(0); }});
            for (int i : {1, 2, 3})
                if (!occ.count(i)) ops.push_back({"place " + std::to_string(i), [&, i] { o.create_buf(static_cast<mockturtle::signal<O>>(at[i == 2 ? 1 : 0]), at[i]); occ.insert(i); }});
            for (int i : {0, 1, 2})
                ops.push_back({"clear " + std::to_string(i), [&, i] { o.clear_tile(at[i]); occ.erase(i); }});
        }
        else if constexpr (is_cell_level_layout_v<L>)
            for (int i : {0, 3})
            {
                ops.push_back({"place " + std::to_string(i), [&, i] { o.assign_cell_type(at[i], L::technology::cell_type::INPUT); occ.insert(i); }});
                ops.push_back({"remove " + std::to_string(i), [&, i] { o.assign_cell_type(at[i], L::technology::cell_type::EMPTY); occ.erase(i); }});
            }
        const auto& op = ops[c.choose(static_cast<int>(ops.size()))];
        log += op.first + "; ";
        c.note(log);
        op.second();
        c.step();
        if (c.again()) continue;
        // connections of the layout below: a wire fed by an occupied neighbour
        wires.clear();
        if constexpr (is_gate_level_layout_v<L>)
            for (int i : {1, 2, 3}) if (occ.count(i) && occ.count(i == 2 ? 1 : 0)) {
                // the direction counts, not the layer: either end may be named by the tile above or below it
                const int f = i == 2 ? 1 : 0;
                for (int e = 0; e < 4; ++e)
                {
                    if (at[e].x == at[f].x) wires.insert({e, i});
                    if (at[e].x == at[i].x) wires.insert({f, e});
                }
            }
        for (int i = 0; i < 4; ++i)
        {
            c.check(o.is_obstructed_coordinate(at[i]) == (oc.count(i) || occ.count(i)), "a coordinate is obstructed exactly when it was marked or is occupied", log);
            if constexpr (is_gate_level_layout_v<L>) c.check(o.is_empty_tile(at[i]) == !occ.count(i), "obstructing changed the layout below", log);
            if constexpr (is_cell_level_layout_v<L>) c.check(o.is_empty_cell(at[i]) == !occ.count(i), "obstructing changed the layout below", log);
            for (int j = 0; j < 4; ++j)
                if (i != j) c.check(o.is_obstructed_connection(at[i], at[j]) == (on.count({i, j}) || wires.count({i, j})), "a connection is obstructed exactly when it was marked or a wire runs there", log + std::to_string(i) + "-" + std::to_string(j));
        }
        const auto n = o.adjacent_coordinates(at[1]);
        c.check(std::set<C>(n.begin(), n.end()) == std::set<C>{at[0], at[2]} && o.area() == 3, "obstructing changed the topology", log);
        uint64_t h = d;
        for (int i : oc) h = mc::hash_mix(h, i);
        for (const auto& p : on) h = mc::hash_mix(h, 10 + p.first * 4 + p.second);
        for (int i : occ) h = mc::hash_mix(h, 100 + i);
        if (!c.fresh(h) && d + 1 < depth) c.prune();
    }
    c.sample(log);
}
#define OBST(ID, T) MC_MODEL(ID, "all histories of 4 (thorough 5) markings, clearings, copies and edits of the layout below; all coordinates and connections after each; states merged", 16) { obstructions<T>(c); }
OBST(obstructions_plain, cart)
OBST(obstructions_clocked, clk)
OBST(obstructions_gate_level, gate)
OBST(obstructions_cell_level, qca)

// ---------------------------------------------------------------- synchronisation elements
template <class B> static void elements(mc::ctx& c)
{
    using CL = clocked_layout<B>;
    using S  = synchronization_element_layout<CL>;
    using C  = coordinate<S>;
    const auto sch = c.pick(std::vector<std::string>{"2DDWAVE3", "2DDWAVE4", "USE", "OPEN4"});
    const topo::geo g{topo::tr<B>::k, topo::tr<B>::odd, 2, 1, 0};
    const auto sc = *get_clocking_scheme<S>(sch);
    struct inst { S l; std::map<P, int> se, clk; };
    std::vector<std::shared_ptr<inst>> ls;
    if (c.flip()) ls.push_back(std::make_shared<inst>(inst{S{aspect_ratio<S>{2, 1}, sc}, {}, {}}));
    else ls.push_back(std::make_shared<inst>(inst{S{CL{aspect_ratio<CL>{2, 1}, *get_clocking_scheme<CL>(sch)}}, {}, {}}));
    std::string log = sch + ": ";
    const std::vector<P> at{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}};
    const auto t = [](const P& p) { return C(p.x, p.y, p.z); };
    const int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::pair<std::string, std::function<void()>>> ops;
        for (size_t k = 0; k < ls.size(); ++k)
        {
            auto* x = ls[k].get();
            for (const auto& p : at)
            {
                for (int e : {0, 1, 255}) ops.push_back({std::to_string(k) + ":se " + topo::str(p) + "=" + std::to_string(e), [=] { x->l.assign_synchronization_element(t(p), static_cast<uint8_t>(e)); x->se[p] = e; }});
                ops.push_back({std::to_string(k) + ":clk " + topo::str(p), [=] { x->l.assign_clock_number(t(p), 1); x->clk[p] = 1; }});
            }
            if (ls.size() < 2) ops.push_back({"clone", [&ls, x] { ls.push_back(std::make_shared<inst>(inst{x->l.clone(), x->se, x->clk})); }});
        }
        const auto& op = ops[c.choose(static_cast<int>(ops.size()))];
        log += op.first + "; ";
        c.note(log);
        op.second();
        c.step();
        if (c.again()) continue;
        uint64_t h = mc::hash_mix(d, mc::hash_str(sch));
        for (const auto& xp : ls)
        {
            auto& x = *xp;
            const auto num = [&](const P& p) { const auto i = x.clk.find(p); return i != x.clk.end() ? i->second : static_cast<int>(sc(t(p))); };
            const auto se  = [&](const P& p) { const auto i = x.se.find(p); return i != x.se.end() ? i->second : 0; };
            int        n = 0;
            for (int y = 0; y < 2; ++y)
                for (int xx = 0; xx < 3; ++xx)
                {
                    const P p{xx, y, 0};
                    n += se(p) != 0;
                    c.check(x.l.get_synchronization_element(t(p)) == se(p) && x.l.is_synchronization_element(t(p)) == (se(p) != 0), "delay assigned last", log);
                    c.check(x.l.get_clock_number(t(p)) == num(p), "clock number below", log);
                    std::set<P> in, out, gi, go;
                    for (int dd : g.adj_dirs())
                        if (const auto q = g.go(p, dd); q != p)
                        {
                            const bool s = se(p) || se(q);
                            if (s || (num(q) + 1) % sc.num_clocks == num(p)) in.insert(q);
                            if (s || (num(p) + 1) % sc.num_clocks == num(q)) out.insert(q);
                            c.check(x.l.is_incoming_clocked(t(p), t(q)) == (in.count(q) > 0) && x.l.is_outgoing_clocked(t(p), t(q)) == (out.count(q) > 0), "information flow between neighbours", log + topo::str(p) + topo::str(q));
                        }
                    c.check(!x.l.is_incoming_clocked(t(p), t(p)) && !x.l.is_outgoing_clocked(t(p), t(p)), "a zone feeds itself", log);
                    size_t ni = 0, no = 0;
                    x.l.foreach_incoming_clocked_zone(t(p), [&](const auto& q) { gi.insert({static_cast<int>(q.x), static_cast<int>(q.y), 0}); ++ni; });
                    x.l.foreach_outgoing_clocked_zone(t(p), [&](const auto& q) { go.insert({static_cast<int>(q.x), static_cast<int>(q.y), 0}); ++no; });
                    c.check(gi == in && go == out && ni == in.size() && no == out.size(), "zones feeding or fed by a tile", log + topo::str(p));
                    c.check(x.l.incoming_clocked_zones(t(p)).size() == ni && x.l.outgoing_clocked_zones(t(p)).size() == no, "zone lists", log + topo::str(p));
                    c.check(x.l.in_degree(t(p)) == in.size() && x.l.out_degree(t(p)) == out.size(), "degrees", log + topo::str(p));
                }
            c.check(static_cast<int>(x.l.num_se()) == n, "num_se", log);
            for (const auto& [p, e] : x.se) h = mc::hash_mix(h, p.x + 4 * p.y + 16 * e);
            for (const auto& [p, e] : x.clk) h = mc::hash_mix(h, 9 + p.x + 4 * p.y);
            h = mc::hash_mix(h, 77);
        }
        if (!c.fresh(h) && d + 1 < depth) c.prune();
    }
    c.sample(log);
}
#define ELEM(ID, T) MC_MODEL(ID, "all histories of 3 (thorough 4) delay and clock assignments and clones on a 3x2 layout under 4 schemes, all queries after each", 4) { elements<T>(c); }
ELEM(elements_cartesian, cart)
ELEM(elements_hexagonal, hexl)
using colh = hexagonal_layout<offset::ucoord_t, odd_column_hex>;
ELEM(elements_hexagonal_column, colh)

// ---------------------------------------------------------------- defects
template <class L> static std::vector<cell<L>> spots()
{
    using C = cell<L>;
    if constexpr (std::is_same_v<C, siqad::coord_t>) return {C{0, 0, 0}, C{3, 2, 1}, C{7, 4, 0}};
    else if constexpr (std::is_same_v<C, cube::coord_t>) return {C{0, 0, 0}, C{3, 2, 0}, C{7, 4, 0}};
    else return {C{0, 0, 0}, C{3, 2, 0}, C{7, 4, 0}};
}
using dt = sidb_defect_type;
static bool ch(const sidb_defect& d) { return d.charge != 0 || d.type == dt::DB || d.type == dt::SI_VACANCY || d.type == dt::ARSENIC; }
template <class L> static void defects(mc::ctx& c)
{
    using C = cell<L>;
    using S = sidb_defect_surface<L>;
    const int  mode = c.choose(4);
    const bool ign = mode & 1;
    sidb_defect_surface_params ps{};
    if (ign) ps.ignore.insert(dt::GUNK);
    const std::vector<sidb_defect> kinds{sidb_defect{dt::NONE}, sidb_defect{dt::DB, -1, 5.6, 5}, sidb_defect{dt::SI_VACANCY, 1, 9, 1}, sidb_defect{dt::GUNK}, sidb_defect{dt::SILOXANE}, sidb_defect{dt::UNKNOWN, 1}, sidb_defect{dt::ARSENIC, 0}};
    struct inst { S s; std::map<int, sidb_defect> m; std::set<int> cells; };
    const auto at = spots<L>();
    std::vector<std::shared_ptr<inst>> ls;
    const aspect_ratio<L> ar = [] { if constexpr (std::is_same_v<C, siqad::coord_t>) return aspect_ratio<L>{8, 5, 1}; else return aspect_ratio<L>{8, 5}; }();
    if (mode & 2) ls.push_back(std::make_shared<inst>(inst{S{ar, ps}, {}, {}}));
    else
    {
        L l{ar};
        l.assign_cell_type(at[2], L::technology::cell_type::NORMAL);
        ls.push_back(std::make_shared<inst>(inst{S{l, ps}, {}, {2}}));
    }
    using ov = std::optional<std::pair<uint16_t, uint16_t>>;
    using ow = std::optional<std::pair<uint64_t, uint64_t>>;
    std::string log = ign ? "ignoring gunk: " : "";
    const int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::pair<std::string, std::function<void()>>> ops;
        for (size_t k = 0; k < ls.size(); ++k)
        {
            auto* x = ls[k].get();
            for (int i = 0; i < 3; ++i)
            {
                for (size_t q = 0; q < kinds.size(); ++q)
                    ops.push_back({std::to_string(k) + ":defect " + std::to_string(i) + "=" + std::to_string(q), [=] {
                        x->s.assign_sidb_defect(at[i], kinds[q]);
                        x->m.erase(i);
                        if (kinds[q].type != dt::NONE && !(ign && kinds[q].type == dt::GUNK)) x->m.insert({i, kinds[q]});
                    }});
                for (int j = 0; j < 3; ++j)
                    ops.push_back({std::to_string(k) + ":move " + std::to_string(i) + "->" + std::to_string(j), [=] {
                        x->s.move_sidb_defect(at[i], at[j]);
                        if (const auto it = x->m.find(i); it != x->m.end()) { const auto v = it->second; x->m.erase(i); x->m.erase(j); x->m.insert({j, v}); }
                    }});
                ops.push_back({std::to_string(k) + ":cell " + std::to_string(i), [=] { x->s.assign_cell_type(at[i], L::technology::cell_type::NORMAL); x->cells.insert(i); }});
            }
            if (ls.size() < 2) ops.push_back({"clone", [&ls, x] { ls.push_back(std::make_shared<inst>(inst{x->s.clone(), x->m, x->cells})); }});
        }
        const auto& op = ops[c.choose(static_cast<int>(ops.size()))];
        log += op.first + "; ";
        c.note(log);
        op.second();
        c.step();
        if (c.again()) continue;
        uint64_t h = mc::hash_mix(d, ign);
        for (const auto& xp : ls)
        {
            auto& x = *xp;
            size_t pos = 0, neg = 0, neu = 0;
            for (int i = 0; i < 3; ++i)
            {
                const auto it = x.m.find(i);
                const auto g  = x.s.get_sidb_defect(at[i]);
                c.check(it == x.m.end() ? g.type == dt::NONE : g == it->second, "defect at a position", log + " position " + std::to_string(i));
                c.check(x.s.is_empty_cell(at[i]) == !x.cells.count(i), "defects change the cells", log);
                if (it == x.m.end()) continue;
                pos += it->second.charge > 0;
                neg += it->second.charge < 0;
                neu += !ch(it->second);
            }
            c.check(x.s.num_defects() == x.m.size() && x.s.num_positively_charged_defects() == pos && x.s.num_negatively_charged_defects() == neg && x.s.num_charged_defects() == pos + neg && x.s.num_neutral_defects() == neu, "number of defects", log);
            std::set<C> seen;
            size_t nn = 0;
            x.s.foreach_sidb_defect([&](const auto& e) { seen.insert(e.first); ++nn; });
            std::set<C> wantd;
            for (const auto& [i, v] : x.m) wantd.insert(at[i]);
            c.check(seen == wantd && nn == x.m.size(), "enumeration of defects", log);
            c.check(x.s.num_cells() == x.cells.size(), "defects change the number of cells", log);
            for (int oc = 0; oc < 3; ++oc)
                for (int on = 0; on < 3; ++on)
                {
                    if (!c.thorough && (oc == 0 ? on != 0 && d + 1 == depth : on == 0 || (oc == 2) == (on == 2))) continue;
                    const ov a = oc == 0 ? ov{} : oc == 1 ? ov{{2, 1}} : ov{{0, 0}}, b = on == 0 ? ov{} : on == 1 ? ov{{1, 2}} : ov{{0, 0}};
                    std::set<C> all;
                    for (int i = 0; i < 3; ++i)
                    {
                        std::set<C> want;
                        if (const auto it = x.m.find(i); it != x.m.end())
                        {
                            const bool cc = ch(it->second);
                            const std::pair<int, int> e = cc ? (a ? std::pair<int, int>{a->first, a->second} : std::pair<int, int>{26, 13}) : (b ? std::pair<int, int>{b->first, b->second} : std::pair<int, int>{1, 0});
                            for (int yy = 0; yy <= 5; ++yy) for (int xx = 0; xx <= 8; ++xx)
                                if (std::abs(xx - static_cast<int>(at[i].x)) <= e.first && std::abs(yy - static_cast<int>(at[i].y)) <= e.second) want.insert(C(xx, yy, static_cast<int>(at[i].z)));
                        }
                        const auto g = x.s.affected_sidbs(at[i], a, b);
                        std::set<C> gs;
                        for (const auto& p : g) if (p.x >= 0 && p.y >= 0) gs.insert(p);  // bounds do not exclude negative positions
                        c.check(gs == want, "positions affected by a defect", log + " position " + std::to_string(i));
                        all.insert(want.begin(), want.end());
                    }
                    const auto g = x.s.all_affected_sidbs(a ? ow{*a} : ow{}, b ? ow{*b} : ow{});
                    std::set<C> gs;
                    for (const auto& p : g) if (p.x >= 0 && p.y >= 0) gs.insert(p);
                    c.check(gs == all, "positions affected by any defect", log);
                }
            for (const auto& [i, v] : x.m) h = mc::hash_mix(h, i + 8 * static_cast<int>(v.type) + 1000 * (v.charge + 5));
            for (int i : x.cells) h = mc::hash_mix(h, 100000 + i);
            h = mc::hash_mix(h, 3);
        }
        if (!c.fresh(h) && d + 1 < depth) c.prune();
    }
    c.sample(log);
}
template <class C> using sidb = cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<C>>>;
#define DEF(ID, T) MC_MODEL(ID, "all histories of 3 (thorough 4) defect assignments, moves, cells and clones on 3 positions with and without an ignored type; counts, enumeration, affected positions with several extents after each", 4) { defects<T>(c); }
DEF(defects_offset, sidb<offset::ucoord_t>)
DEF(defects_cube, sidb<cube::coord_t>)
DEF(defects_siqad, sidb<siqad::coord_t>)
