// Independent geometric picture of the layout topologies, shared by the layout checks.
#ifndef VERIF_TOPO_HPP
#define VERIF_TOPO_HPP
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <compare>
#include <optional>
#include <string>
#include <vector>
namespace topo
{
using namespace fiction;

struct P  // a position, independent of the library's coordinate types
{
    int x, y, z;
    auto operator<=>(const P&) const = default;
};
enum dir { N, NE, E, SE, S, SW, W, NW, UP, DOWN, NDIR };
inline const char* const DN[]{"north", "north_east", "east", "south_east", "south", "south_west", "west", "north_west", "above", "below"};
inline dir opp(int d) { static const dir o[]{S, SW, W, NW, N, NE, E, SE, DOWN, UP}; return o[d]; }

enum kind { CART, ROWS, COLS };
struct geo  // the picture: which rows/columns are shoved by half a tile
{
    kind k;
    bool odd;
    int  mx, my, mz;
    bool in(const P& p) const { return p.x >= 0 && p.y >= 0 && p.z >= 0 && p.x <= mx && p.y <= my && p.z <= mz; }
    bool shoved(int i) const { return (i % 2 != 0) == odd; }
    // neighbour in a direction irrespective of the bounds
    std::optional<P> raw(const P& p, int d) const
    {
        static const int dx[]{0, 1, 1, 1, 0, -1, -1, -1, 0, 0}, dy[]{-1, -1, 0, 1, 1, 1, 0, -1, 0, 0}, dz[]{0, 0, 0, 0, 0, 0, 0, 0, 1, -1};
        if (k == ROWS && dx[d] && dy[d])
            for (int x = p.x - 1; x <= p.x + 1; ++x)  // half a tile to the right or left, one row up or down
                if (2 * x + shoved(p.y + dy[d]) == 2 * p.x + shoved(p.y) + dx[d]) return P{x, p.y + dy[d], p.z};
        if (k == COLS && dx[d] && dy[d])
            for (int y = p.y - 1; y <= p.y + 1; ++y)
                if (2 * y + shoved(p.x + dx[d]) == 2 * p.y + shoved(p.x) + dy[d]) return P{p.x + dx[d], y, p.z};
        return P{p.x + dx[d], p.y + dy[d], p.z + dz[d]};
    }
    P go(const P& p, int d) const { const auto r = raw(p, d); return r && in(*r) ? *r : p; }
    std::vector<int> adj_dirs() const
    {
        if (k == CART) return {N, E, S, W};
        if (k == ROWS) return {E, W, NE, NW, SE, SW};
        return {N, S, NE, NW, SE, SW};
    }
    std::vector<std::pair<int, int>> opp_dirs() const
    {
        if (k == CART) return {{N, S}, {E, W}};
        if (k == ROWS) return {{E, W}, {NE, SW}, {NW, SE}};
        return {{N, S}, {NE, SW}, {NW, SE}};
    }
};
template <class L> struct tr { static constexpr kind k = CART; static constexpr bool odd = false; };
template <class C> struct tr<hexagonal_layout<C, odd_row_hex>> { static constexpr kind k = ROWS; static constexpr bool odd = true; };
template <class C> struct tr<hexagonal_layout<C, even_row_hex>> { static constexpr kind k = ROWS; static constexpr bool odd = false; };
template <class C> struct tr<hexagonal_layout<C, odd_column_hex>> { static constexpr kind k = COLS; static constexpr bool odd = true; };
template <class C> struct tr<hexagonal_layout<C, even_column_hex>> { static constexpr kind k = COLS; static constexpr bool odd = false; };
template <class C> struct tr<shifted_cartesian_layout<C, odd_row_cartesian>> { static constexpr kind k = ROWS; static constexpr bool odd = true; };
template <class C> struct tr<shifted_cartesian_layout<C, even_row_cartesian>> { static constexpr kind k = ROWS; static constexpr bool odd = false; };
template <class C> struct tr<shifted_cartesian_layout<C, odd_column_cartesian>> { static constexpr kind k = COLS; static constexpr bool odd = true; };
template <class C> struct tr<shifted_cartesian_layout<C, even_column_cartesian>> { static constexpr kind k = COLS; static constexpr bool odd = false; };

inline std::string str(const P& p) { return "(" + std::to_string(p.x) + "," + std::to_string(p.y) + "," + std::to_string(p.z) + ")"; }
}  // namespace topo
#endif
