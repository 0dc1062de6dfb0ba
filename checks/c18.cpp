// C18: cell-level layouts under every history of assignments and removals against a plain map.
#include "mc.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_lattice.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/traits.hpp>
#include <fiction/types.hpp>
#include <memory>

using namespace fiction;
template <class T, class C> using cl = cell_level_layout<T, clocked_layout<cartesian_layout<C>>>;
using qca   = cl<qca_technology, offset::ucoord_t>;
using mol   = cl<mol_qca_technology, offset::ucoord_t>;
using inml  = cl<inml_technology, offset::ucoord_t>;
using sidbo = cl<sidb_technology, offset::ucoord_t>;
using sidbc = cl<sidb_technology, cube::coord_t>;
using sidbs = cl<sidb_technology, siqad::coord_t>;
using latt  = sidb_lattice<sidb_100_lattice, cl<sidb_technology, siqad::coord_t>>;

template <class L> struct tech;
template <> struct tech<qca_technology> { static std::vector<qca_technology::cell_type> types() { using t = qca_technology::cell_type; return {t::NORMAL, t::INPUT, t::OUTPUT, t::CONST_0, t::CONST_1}; } };
template <> struct tech<mol_qca_technology> { static std::vector<mol_qca_technology::cell_type> types() { using t = mol_qca_technology::cell_type; return {t::NORMAL1, t::NORMAL2, t::NORMAL3, t::NORMAL4, t::INPUT, t::OUTPUT, t::CONST_0, t::CONST_1}; } };
template <> struct tech<inml_technology> { static std::vector<inml_technology::cell_type> types() { using t = inml_technology::cell_type; return {t::NORMAL, t::INPUT, t::OUTPUT, t::INVERTER_MAGNET}; } };
template <> struct tech<sidb_technology> { static std::vector<sidb_technology::cell_type> types() { using t = sidb_technology::cell_type; return {t::NORMAL, t::INPUT, t::OUTPUT, t::LOGIC}; } };
template <class T> constexpr bool has_modes = std::is_same_v<T, qca_technology> || std::is_same_v<T, mol_qca_technology>;

template <class L> struct slot
{
    typename L::cell_type type{L::technology::cell_type::EMPTY};
    int                   mode{0};
    std::string           name;
    bool                  stale{false};  // named before the cell was removed; whether the name survives is not promised
};
template <class L> struct inst
{
    L                      l;
    std::vector<slot<L>>   s;
    std::string            name;
    uint16_t               tx, ty;
};
template <class L> static std::vector<cell<L>> where()
{
    using C = cell<L>;
    if constexpr (std::is_same_v<C, cube::coord_t>) return {C{0, 0, 0}, C{-3, 2, 0}, C{5, -7, 1}};
    else if constexpr (std::is_same_v<C, siqad::coord_t>) return {C{0, 0, 0}, C{0, 0, 1}, C{-4, 3, 1}};
    else return {C{0, 0, 0}, C{1, 0, 0}, C{1, 0, 1}};
}
template <class L> static void compare(mc::ctx& c, const inst<L>& x)
{
    using T = typename L::technology;
    const auto& W = where<L>();
    const auto& l = x.l;
    std::vector<cell<L>> all, in, out;
    for (size_t i = 0; i < W.size(); ++i)
    {
        const auto& s = x.s[i];
        const bool  e = s.type == T::cell_type::EMPTY;
        c.check(l.get_cell_type(W[i]) == s.type, "type of a position");
        c.check(l.is_empty_cell(W[i]) == e, "a position is empty exactly when nothing was placed or it was removed");
        if constexpr (has_modes<T>) c.check(static_cast<int>(l.get_cell_mode(W[i])) == s.mode, "mode of a position");
        const auto n = l.get_cell_name(W[i]);
        c.check(n == s.name || (s.stale && n.empty()), "name of a position", n);
        c.check(l.is_pi(W[i]) == (s.type == T::cell_type::INPUT), "is_pi");
        c.check(l.is_po(W[i]) == (s.type == T::cell_type::OUTPUT), "is_po");
        if (!e) all.push_back(W[i]);
        if (s.type == T::cell_type::INPUT) in.push_back(W[i]);
        if (s.type == T::cell_type::OUTPUT) out.push_back(W[i]);
    }
    const auto same = [&](auto each, std::vector<cell<L>> e, const char* q) {
        std::vector<cell<L>> r;
        each([&](const auto& k) { r.push_back(k); });
        std::sort(r.begin(), r.end());
        std::sort(e.begin(), e.end());
        c.check(r == e, q, std::to_string(r.size()) + " of " + std::to_string(e.size()));
        c.step();
    };
    same([&](auto f) { l.foreach_cell(f); }, all, "foreach_cell visits every cell once");
    same([&](auto f) { l.foreach_pi(f); }, in, "foreach_pi visits every input once");
    same([&](auto f) { l.foreach_po(f); }, out, "foreach_po visits every output once");
    c.check(l.num_cells() == all.size(), "num_cells");
    c.check(l.is_empty() == all.empty(), "is_empty");
    c.check(l.num_pis() == in.size() && l.num_pos() == out.size(), "num_pis/num_pos");
    for (const auto t : tech<T>::types())
    {
        std::vector<cell<L>> e;
        for (size_t i = 0; i < W.size(); ++i) if (x.s[i].type == t) e.push_back(W[i]);
        same([&](auto f) { for (const auto& k : l.get_cells_by_type(t)) f(k); }, e, "get_cells_by_type");
        c.check(l.num_cells_of_given_type(t) == e.size(), "num_cells_of_given_type");
    }
    c.check(l.get_layout_name() == x.name && l.get_tile_size_x() == x.tx && l.get_tile_size_y() == x.ty, "layout name and tile size");
}
template <class L> static void history(mc::ctx& c)
{
    using T = typename L::technology;
    const auto W = where<L>();
    std::vector<std::shared_ptr<inst<L>>> ls;
    if constexpr (is_sidb_lattice_v<L>) ls.push_back(std::make_shared<inst<L>>(inst<L>{L{aspect_ratio<L>{3, 3}, "n"}, std::vector<slot<L>>(W.size()), "n", 1, 1}));
    else ls.push_back(std::make_shared<inst<L>>(inst<L>{L{aspect_ratio<L>{3, 3, 1}, "n", 2, 3}, std::vector<slot<L>>(W.size()), "n", 2, 3}));
    std::string log;
    const int   depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::pair<std::string, std::function<void()>>> ops;
        for (size_t k = 0; k < ls.size(); ++k)
        {
            auto*      x = ls[k].get();
            const auto id = std::to_string(k) + ":";
            for (size_t i = 0; i < W.size(); ++i)
            {
                const auto at = id + std::to_string(i);
                for (const auto t : tech<T>::types())
                    ops.push_back({"type " + at + "=" + static_cast<char>(t), [=] { x->l.assign_cell_type(W[i], t); x->s[i].type = t; }});
                ops.push_back({"remove " + at, [=] { x->l.assign_cell_type(W[i], T::cell_type::EMPTY); auto& s = x->s[i]; s.type = T::cell_type::EMPTY; s.mode = 0; s.stale = true; }});
                for (const char* n : {"a", "bb", ""})
                    ops.push_back({"name " + at + "=" + n, [=] { x->l.assign_cell_name(W[i], n); x->s[i].name = n; x->s[i].stale = false; }});
                if constexpr (has_modes<T>)
                    for (int m = 0; m < 4; ++m)
                        ops.push_back({"mode " + at + "=" + std::to_string(m), [=] { x->l.assign_cell_mode(W[i], static_cast<typename T::cell_mode>(m)); x->s[i].mode = m; }});
            }
            ops.push_back({"rename " + id, [=] { x->l.set_layout_name("other"); x->name = "other"; x->l.set_tile_size_x(5); x->l.set_tile_size_y(7); x->tx = 5; x->ty = 7; }});
            if (ls.size() < 2) ops.push_back({"clone " + id, [&ls, x] { ls.push_back(std::make_shared<inst<L>>(inst<L>{L{x->l.clone()}, x->s, x->name, x->tx, x->ty})); }});
        }
        const auto& op = ops[c.choose(static_cast<int>(ops.size()))];
        log += op.first + "; ";
        c.note(log);
        op.second();
        c.step();
        if (c.again()) continue;
        uint64_t h = d;
        for (const auto& x : ls)
        {
            compare(c, *x);
            for (const auto& s : x->s) h = mc::hash_mix(h, static_cast<uint64_t>(s.type) + 1000 * s.mode + 10000 * s.name.size() + 100000 * s.stale);
            h = mc::hash_mix(h, x->tx);
        }
        if (!c.fresh(h) && d + 1 < depth) c.prune();
    }
    c.sample(log);
}
#define HIST(ID, T) MC_MODEL(ID, "all histories of 3 (thorough 4) type, mode, name assignments, removals, renamings and clones on 3 positions, all queries on all layouts after each; states merged", 16) { history<T>(c); }
HIST(history_qca, qca)
HIST(history_mol_qca, mol)
HIST(history_inml, inml)
HIST(history_sidb_offset, sidbo)
HIST(history_sidb_cube, sidbc)
HIST(history_sidb_siqad, sidbs)
HIST(history_sidb_lattice, latt)

// the clock number of a cell is the one of the zone it lies in
template <class L> static void clocking(mc::ctx& c)
{
    const auto  n  = c.pick(std::vector<std::string>{"2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "BANCS", "ROW4", "COLUMNAR3", "OPEN4"});
    const int   tx = c.range(1, 5), ty = c.range(1, 6);
    const auto  s = *get_clocking_scheme<L>(n);
    L           l{aspect_ratio<L>{23, 23, 1}, s, "", static_cast<uint16_t>(tx), static_cast<uint16_t>(ty)};
    for (int z = 0; z < 2; ++z)
        for (int y = 0; y < 24; ++y)
            for (int x = 0; x < 24; ++x)
            {
                c.step();
                c.check(l.get_clock_number(cell<L>(x, y, z)) == s(cell<L>(x / tx, y / ty, z)), "clock number of a cell is not the one of its zone", n + " " + std::to_string(x) + "," + std::to_string(y) + " with zones of " + std::to_string(tx) + "x" + std::to_string(ty));
            }
    if (tx > 1)
    {
        // overriding a zone affects all its cells and no other
        l.assign_clock_number({1, 1, 0}, 2);
        for (int y = 0; y < 24; ++y)
            for (int x = 0; x < 24; ++x)
                c.check(l.get_clock_number(cell<L>(x, y, 0)) == (x / tx == 1 && y / ty == 1 ? 2 : s(cell<L>(x / tx, y / ty, 0))), "clock number of a cell after overriding its zone");
    }
    c.state(mc::hash_mix(mc::hash_str(n), tx * 8 + ty));
}
MC_MODEL(clock_zones, "9 schemes x zones of 1..5 x 1..6 cells x 24x24x2 cells, and one overridden zone", 9) { clocking<qca>(c); }
MC_MODEL(clock_zones_cube, "the same for cube coordinates", 9) { clocking<sidbc>(c); }
