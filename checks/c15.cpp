// C15: layout topologies against an independent geometric picture of the tiles.
#include "mc.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/traits.hpp>
#include <array>
#include <optional>

using namespace fiction;

struct P  // a position, independent of the library's coordinate types
{
    int x, y, z;
    auto operator<=>(const P&) const = default;
};
enum dir { N, NE, E, SE, S, SW, W, NW, UP, DOWN, NDIR };
static const char* const DN[]{"north", "north_east", "east", "south_east", "south", "south_west", "west", "north_west", "above", "below"};
static dir opp(int d) { static const dir o[]{S, SW, W, NW, N, NE, E, SE, DOWN, UP}; return o[d]; }

enum kind { CART, ROWS, COLS };
struct geo  // the picture: which rows/columns are shoved by half a tile
{
    kind k;
    bool odd;
    int  mx, my, mz;
    bool in(const P& p) const { return p.x >= 0 && p.y >= 0 && p.z >= 0 && p.x <= mx && p.y <= my && p.z <= mz; }
    bool shoved(int i) const { return (i % 2 != 0) == odd; }
    // neighbour in a direction irrespective of the bounds
    std::optional<P> raw(const P& p, int d) const
    {
        static const int dx[]{0, 1, 1, 1, 0, -1, -1, -1, 0, 0}, dy[]{-1, -1, 0, 1, 1, 1, 0, -1, 0, 0}, dz[]{0, 0, 0, 0, 0, 0, 0, 0, 1, -1};
        if (k == ROWS && dx[d] && dy[d])
            for (int x = p.x - 1; x <= p.x + 1; ++x)  // half a tile to the right or left, one row up or down
                if (2 * x + shoved(p.y + dy[d]) == 2 * p.x + shoved(p.y) + dx[d]) return P{x, p.y + dy[d], p.z};
        if (k == COLS && dx[d] && dy[d])
            for (int y = p.y - 1; y <= p.y + 1; ++y)
                if (2 * y + shoved(p.x + dx[d]) == 2 * p.y + shoved(p.x) + dy[d]) return P{p.x + dx[d], y, p.z};
        return P{p.x + dx[d], p.y + dy[d], p.z + dz[d]};
    }
    P go(const P& p, int d) const { const auto r = raw(p, d); return r && in(*r) ? *r : p; }
    std::vector<int> adj_dirs() const
    {
        if (k == CART) return {N, E, S, W};
        if (k == ROWS) return {E, W, NE, NW, SE, SW};
        return {N, S, NE, NW, SE, SW};
    }
    std::vector<std::pair<int, int>> opp_dirs() const
    {
        if (k == CART) return {{N, S}, {E, W}};
        if (k == ROWS) return {{E, W}, {NE, SW}, {NW, SE}};
        return {{N, S}, {NE, SW}, {NW, SE}};
    }
};
template <class L> struct tr { static constexpr kind k = CART; static constexpr bool odd = false; };
template <class C> struct tr<hexagonal_layout<C, odd_row_hex>> { static constexpr kind k = ROWS; static constexpr bool odd = true; };
template <class C> struct tr<hexagonal_layout<C, even_row_hex>> { static constexpr kind k = ROWS; static constexpr bool odd = false; };
template <class C> struct tr<hexagonal_layout<C, odd_column_hex>> { static constexpr kind k = COLS; static constexpr bool odd = true; };
template <class C> struct tr<hexagonal_layout<C, even_column_hex>> { static constexpr kind k = COLS; static constexpr bool odd = false; };
template <class C> struct tr<shifted_cartesian_layout<C, odd_row_cartesian>> { static constexpr kind k = ROWS; static constexpr bool odd = true; };
template <class C> struct tr<shifted_cartesian_layout<C, even_row_cartesian>> { static constexpr kind k = ROWS; static constexpr bool odd = false; };
template <class C> struct tr<shifted_cartesian_layout<C, odd_column_cartesian>> { static constexpr kind k = COLS; static constexpr bool odd = true; };
template <class C> struct tr<shifted_cartesian_layout<C, even_column_cartesian>> { static constexpr kind k = COLS; static constexpr bool odd = false; };

template <class C> static P pos(const C& c) { return {static_cast<int>(c.x), static_cast<int>(c.y), static_cast<int>(c.z)}; }
template <class C> static C mk(const P& p) { return C{p.x, p.y, p.z}; }
static std::string str(const P& p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + "," + std::to_string(p.z) + ")"; }

template <class L>
static void topology(mc::ctx& c, const char* name, bool tall)
{
    using C = coordinate<L>;
    static constexpr bool siq = std::is_same_v<C, siqad::coord_t>, deep = std::is_same_v<C, cube::coord_t>;  // others have one bit for the layer
    const int mx = c.choose(tall ? 3 : 5), my = c.choose(5), mz = siq ? 1 : c.choose(tall && deep ? 4 : 2);
    const geo g{tr<L>::k, tr<L>::odd, mx, my, mz};
    // reach the extent directly, by resizing, or through a clone that is independent of the original
    const int via = c.choose(3);
    L lyt{via == 1 ? mk<C>({4 - mx, 4 - my, 0}) : mk<C>({mx, my, mz})};
    if (via == 1) lyt.resize(mk<C>({mx, my, mz}));
    if (via == 2)
    {
        L other{lyt.clone()};
        other.resize(mk<C>({mx + 3, my + 3, mz}));
        c.check(static_cast<int>(other.x()) == mx + 3 && static_cast<int>(other.y()) == my + 3, std::string{name} + ": resized clone has the wrong extent");
        if constexpr (!std::is_same_v<C, siqad::coord_t>) { L third{other.clone()}; third.resize(mk<C>({0, 0, 0})); c.check(static_cast<int>(other.x()) == mx + 3, std::string{name} + ": clones share their extent"); }
    }
    const auto what = [&](const P& p, const char* q) { return std::string{name} + " " + str({mx, my, mz}) + " " + str(p) + ": " + q; };
    const P ext{static_cast<int>(lyt.x()), static_cast<int>(lyt.y()), static_cast<int>(lyt.z())};
    c.check((ext == P{mx, my, mz}), std::string{name} + ": extent is not the one requested", str(ext));
    c.check(static_cast<int>(lyt.area()) == (mx + 1) * (my + 1) * (siq ? 2 : 1) || siq, std::string{name} + ": area");
    std::set<P> all, ground;
    for (int z = 0; z <= mz; ++z)
        for (int y = 0; y <= my; ++y)
            for (int x = 0; x <= mx; ++x)
            {
                all.insert({x, y, z});
                if (z == 0) ground.insert({x, y, z});
            }
    // enumeration
    const auto once = [&](const std::vector<P>& v, const std::set<P>& e, const char* q) {
        c.check(v.size() == e.size() && std::set<P>(v.begin(), v.end()) == e, std::string{name} + ": " + q + " does not visit every position exactly once", std::to_string(v.size()) + " of " + std::to_string(e.size()));
    };
    std::vector<P> order, v;
    lyt.foreach_coordinate([&](const auto& k) { order.push_back(pos(k)); });
    once(order, all, "foreach_coordinate");
    for (const auto& k : lyt.coordinates()) v.push_back(pos(k));
    c.check(v == order, std::string{name} + ": coordinates() and foreach_coordinate() disagree");
    v.clear();
    lyt.foreach_ground_coordinate([&](const auto& k) { v.push_back(pos(k)); });
    once(v, ground, "foreach_ground_coordinate");
    std::vector<P> w;
    for (const auto& k : lyt.ground_coordinates()) w.push_back(pos(k));
    c.check(v == w, std::string{name} + ": ground_coordinates() and foreach_ground_coordinate() disagree");
    // every sub-range [i, j) of the enumeration
    if (order.size() <= 30)
        for (size_t i = 0; i < order.size(); ++i)
            for (size_t j = i; j <= order.size(); ++j)
            {
                v.clear();
                lyt.foreach_coordinate([&](const auto& k) { v.push_back(pos(k)); }, mk<C>(order[i]), j == order.size() ? C{} : mk<C>(order[j]));
                c.check(v == std::vector<P>(order.begin() + i, order.begin() + j), std::string{name} + ": enumeration from start to stop is not the part in between");
                c.step();
            }
    for (const auto& p : all)
    {
        const auto cc = mk<C>(p);
        const P nb[]{pos(lyt.north(cc)), pos(lyt.north_east(cc)), pos(lyt.east(cc)), pos(lyt.south_east(cc)), pos(lyt.south(cc)), pos(lyt.south_west(cc)), pos(lyt.west(cc)), pos(lyt.north_west(cc)), pos(lyt.above(cc)), pos(lyt.below(cc))};
        for (int d = 0; d < NDIR; ++d)
        {
            c.step();
            c.check(nb[d] == g.go(p, d), what(p, DN[d]), "is " + str(nb[d]) + ", not " + str(g.go(p, d)));
        }
        c.check(!lyt.east(cc).is_dead() && !lyt.south(cc).is_dead() && !lyt.north_east(cc).is_dead() && !lyt.above(cc).is_dead(), what(p, "neighbour is dead"));
        // border tests
        const bool bn = p.y == 0, be = p.x == mx, bs = p.y == my, bw = p.x == 0;
        c.check(lyt.is_at_northern_border(cc) == bn && lyt.is_at_eastern_border(cc) == be && lyt.is_at_southern_border(cc) == bs && lyt.is_at_western_border(cc) == bw && lyt.is_at_any_border(cc) == (bn || be || bs || bw), what(p, "border tests"));
        c.check((pos(lyt.northern_border_of(cc)) == P{p.x, 0, p.z}) && (pos(lyt.eastern_border_of(cc)) == P{mx, p.y, p.z}) && (pos(lyt.southern_border_of(cc)) == P{p.x, my, p.z}) && (pos(lyt.western_border_of(cc)) == P{0, p.y, p.z}), what(p, "border projection"));
        c.check(lyt.is_ground_layer(cc) == (p.z == 0) && lyt.is_crossing_layer(cc) == (p.z > 0) && lyt.is_within_bounds(cc), what(p, "layer tests"));
        // adjacency
        std::set<P> e;
        for (int d : g.adj_dirs()) if (g.go(p, d) != p) e.insert(g.go(p, d));
        std::vector<P> a, b;
        for (const auto& k : lyt.adjacent_coordinates(cc)) a.push_back(pos(k));
        lyt.foreach_adjacent_coordinate(cc, [&](const auto& k) { b.push_back(pos(k)); });
        c.check(a.size() == e.size() && std::set<P>(a.begin(), a.end()) == e, what(p, "adjacent_coordinates"));
        c.check(b.size() == e.size() && std::set<P>(b.begin(), b.end()) == e, what(p, "foreach_adjacent_coordinate"));
        std::set<std::pair<P, P>> eo, ao, bo;
        size_t na = 0, nbo = 0;
        const auto norm = [](P x, P y) { return x < y ? std::pair{x, y} : std::pair{y, x}; };
        for (const auto& [d1, d2] : g.opp_dirs()) if (g.go(p, d1) != p && g.go(p, d2) != p) eo.insert(norm(g.go(p, d1), g.go(p, d2)));
        for (const auto& k : lyt.adjacent_opposite_coordinates(cc)) { ao.insert(norm(pos(k.first), pos(k.second))); ++na; }
        lyt.foreach_adjacent_opposite_coordinates(cc, [&](const auto& k) { bo.insert(norm(pos(k.first), pos(k.second))); ++nbo; });
        c.check(ao == eo && na == eo.size() && bo == eo && nbo == eo.size(), what(p, "adjacent_opposite_coordinates"));
        // pairwise predicates
        for (const auto& q : all)
        {
            const auto qc = mk<C>(q);
            const bool ad = e.count(q) != 0;
            c.step();
            c.check(lyt.is_adjacent_of(cc, qc) == ad, what(p, "is_adjacent_of"), str(q));
            std::set<P> ee = e;
            for (int u : {UP, DOWN})
                if (const P o = g.go(p, u); o != p)
                    for (int d : g.adj_dirs()) if (g.go(o, d) != o) ee.insert(g.go(o, d));
            c.check(lyt.is_adjacent_elevation_of(cc, qc) == (ee.count(q) != 0), what(p, "is_adjacent_elevation_of"), str(q));
            const auto is = [&](int d) { return p != q && g.go(p, d) == q; };
            c.check(lyt.is_north_of(cc, qc) == is(N) && lyt.is_east_of(cc, qc) == is(E) && lyt.is_south_of(cc, qc) == is(S) && lyt.is_west_of(cc, qc) == is(W) && lyt.is_above(cc, qc) == is(UP) && lyt.is_below(cc, qc) == is(DOWN), what(p, "relative position"), str(q));
            const bool same = p.z == q.z;
            c.check(lyt.is_northwards_of(cc, qc) == (same && p.x == q.x && q.y < p.y) && lyt.is_southwards_of(cc, qc) == (same && p.x == q.x && q.y > p.y) && lyt.is_eastwards_of(cc, qc) == (same && p.y == q.y && q.x > p.x) && lyt.is_westwards_of(cc, qc) == (same && p.y == q.y && q.x < p.x), what(p, "in the direction of"), str(q));
        }
        if constexpr (tr<L>::k != CART && requires { lyt.to_cube_coordinate(cc); })
        {
            const auto cube = lyt.to_cube_coordinate(cc);
            c.check(static_cast<int>(cube.x) + static_cast<int>(cube.y) + static_cast<int>(cube.z) == 0, what(p, "cube coordinates do not sum to zero"));
            const auto o = lyt.to_offset_coordinate(cube);
            c.check((P{static_cast<int>(o.x), static_cast<int>(o.y), p.z} == p), what(p, "cube coordinates do not convert back"));
        }
        c.state(mc::hash_str(what(p, "")));
    }
    // outside
    for (const P& p : {P{mx + 1, 0, 0}, P{0, my + 1, 0}, P{0, 0, mz + 1}, P{mx + 1, my + 1, mz + 1}})
        if (deep || p.z <= 1) c.check(!lyt.is_within_bounds(mk<C>(p)), what(p, "outside, but within bounds"));
    c.sample(std::string{name} + " " + str({mx, my, mz}));
}
#define TOPO(ID, ...) MC_MODEL(ID, "every extent up to 5x5x2 and 3x5x4 set directly, by resizing and next to a clone; every tile, direction, pair of tiles and enumeration range", 2) { topology<__VA_ARGS__>(c, #ID, c.flip()); }
TOPO(cartesian_offset, cartesian_layout<offset::ucoord_t>)
TOPO(cartesian_cube, cartesian_layout<cube::coord_t>)
TOPO(cartesian_siqad, cartesian_layout<siqad::coord_t>)
TOPO(hex_odd_row, hexagonal_layout<offset::ucoord_t, odd_row_hex>)
TOPO(hex_even_row, hexagonal_layout<offset::ucoord_t, even_row_hex>)
TOPO(hex_odd_column, hexagonal_layout<offset::ucoord_t, odd_column_hex>)
TOPO(hex_even_column, hexagonal_layout<offset::ucoord_t, even_column_hex>)
TOPO(shifted_odd_row, shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>)
TOPO(shifted_even_row, shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>)
TOPO(shifted_odd_column, shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>)
TOPO(shifted_even_column, shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>)

// tile-based layouts rename the coordinate interface
template <class B> static void tiles(mc::ctx& c, const char* name)
{
    using L = tile_based_layout<B>;
    using T = tile<L>;
    const int mx = c.choose(4), my = c.choose(4), mz = c.choose(2);
    const L   lyt{aspect_ratio<L>(mx, my, mz)};
    size_t n = 0, ng = 0;
    lyt.foreach_tile([&](const auto& t) {
        ++n;
        const T tt = t;
        std::vector<P> a, b;
        for (const auto& k : lyt.adjacent_tiles(tt)) a.push_back(pos(k));
        for (const auto& k : static_cast<const B&>(lyt).adjacent_coordinates(tt)) b.push_back(pos(k));
        c.check(a == b, std::string{name} + ": adjacent tiles differ from adjacent coordinates");
        b.clear();
        lyt.foreach_adjacent_tile(tt, [&](const auto& k) { b.push_back(pos(k)); });
        c.check(a == b, std::string{name} + ": foreach_adjacent_tile");
        size_t o = 0;
        lyt.foreach_adjacent_opposite_tiles(tt, [&](const auto&) { ++o; });
        c.check(o == lyt.adjacent_opposite_tiles(tt).size() && o == static_cast<const B&>(lyt).adjacent_opposite_coordinates(tt).size(), std::string{name} + ": opposite tiles");
        c.step();
    });
    lyt.foreach_ground_tile([&](const auto&) { ++ng; });
    c.check(n == static_cast<size_t>((mx + 1) * (my + 1) * (mz + 1)) && ng == static_cast<size_t>((mx + 1) * (my + 1)), std::string{name} + ": tiles are not visited exactly once");
    size_t m = 0, mg = 0;
    for ([[maybe_unused]] const auto& t : lyt.tiles()) ++m;
    for ([[maybe_unused]] const auto& t : lyt.ground_tiles()) ++mg;
    c.check(m == n && mg == ng, std::string{name} + ": tiles() and foreach_tile() disagree");
    c.state(mc::hash_str(std::string{name} + str({mx, my, mz})));
}
MC_MODEL(tile_cartesian, "extents up to 4x4x2", 1) { tiles<cartesian_layout<offset::ucoord_t>>(c, "tiles of Cartesian"); }
MC_MODEL(tile_hex, "extents up to 4x4x2", 1) { tiles<hexagonal_layout<offset::ucoord_t, even_row_hex>>(c, "tiles of even_row_hex"); }
MC_MODEL(tile_shifted, "extents up to 4x4x2", 1) { tiles<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>(c, "tiles of odd_column_cartesian"); }
