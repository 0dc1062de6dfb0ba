// C42: ports, cell positions, cell types and layout utilities.
#include "mc.hpp"
#include "topo.hpp"
#include <functional>
#include <random>
namespace verif { static mc::ctx* owner = nullptr; }
struct verif_device { unsigned operator()() const { return 0; } };
struct verif_engine { explicit verif_engine(uint64_t = 0) {} };
template <class T = int> struct verif_uniform
{
    T lo, hi;
    verif_uniform(T a, T b) : lo{a}, hi{b} { if (b < a) verif::owner->report("empty range of random numbers", "empty range of random numbers"); }
    T operator()(verif_engine&) { return hi < lo ? lo : lo + static_cast<T>(verif::owner->choose(static_cast<int>(hi - lo) + 1)); }
};
namespace std
{
using verif_device = ::verif_device;
using verif_engine = ::verif_engine;
template <class T = int> using verif_uniform = ::verif_uniform<T>;
}
#define random_device verif_device
#define mt19937_64 verif_engine
#define uniform_int_distribution verif_uniform
#include <fiction/utils/layout_utils.hpp>
#undef random_device
#undef mt19937_64
#undef uniform_int_distribution
#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/types.hpp>
#include "sidb.hpp"
using namespace fiction;

// ---------------------------------------------------------------- ports
MC_MODEL(port_values, "all port positions up to 3x3 and all directions with all pin flags: order, equality and hash are consistent", 1)
{
    const port_position a{static_cast<uint16_t>(c.choose(4)), static_cast<uint16_t>(c.choose(4)), c.flip(), c.flip()}, b{static_cast<uint16_t>(c.choose(4)), static_cast<uint16_t>(c.choose(4)), c.flip(), c.flip()};
    const bool same = a.x == b.x && a.y == b.y;
    c.check((a == b) == same, "equality of positions");
    c.check((a < b) == (a.x != b.x ? a.x < b.x : a.y < b.y), "order of positions");
    if (same) c.check(std::hash<port_position>{}(a) == std::hash<port_position>{}(b), "hash of equal positions");
    c.check(fmt::format("{}", a) == "(" + std::to_string(a.x) + "," + std::to_string(a.y) + ")", "printed position");
    static const char* const N[] = {"N", "NE", "E", "SE", "S", "SW", "W", "NW", "?"};
    const int i = a.x + 4 * (a.y & 1), j = b.x + 4 * (b.y & 1);
    const port_direction d{static_cast<port_direction::cardinal>(i), a.pi, a.po}, e{static_cast<port_direction::cardinal>(j), b.pi, b.po};
    c.check(d.dir == i && d.pi == a.pi && d.po == a.po, "members of a direction");
    c.check((d == e) == (i == j) && (d < e) == (i < j), "order of directions");
    if (i == j) c.check(std::hash<port_direction>{}(d) == std::hash<port_direction>{}(e), "hash of equal directions");
    c.check(fmt::format("{}", d) == N[i], "printed direction");
    c.check(fmt::format("{}", port_direction{port_direction::cardinal::NONE}) == "?", "printed direction");
}
template <class T> static T make(int i)
{
    if constexpr (std::is_same_v<T, port_position>) return T{static_cast<uint16_t>(i % 2), static_cast<uint16_t>(i / 2)};
    else return T{static_cast<port_direction::cardinal>(2 * i)};
}
template <class T> static void lists(mc::ctx& c)
{
    int m[4];
    port_list<T> l[2];
    for (int i = 0; i < 4; ++i) m[i] = c.choose(16);
    for (int k = 0; k < 2; ++k)
    {
        std::set<T> in, out;
        for (int b = 3; b >= 0; --b)
        {
            if (m[2 * k] >> b & 1) in.insert(make<T>(b));
            if (m[2 * k + 1] >> b & 1) out.insert(make<T>(b));
        }
        l[k] = port_list<T>{in, out};
    }
    const bool same = m[0] == m[2] && m[1] == m[3];
    c.check((l[0] == l[1]) == same, "equality of port lists");
    if (same) c.check(std::hash<port_list<T>>{}(l[0]) == std::hash<port_list<T>>{}(l[1]), "hash of equal port lists");
    auto u = l[0], v = l[1];
    u += v;
    for (int b = 0; b < 4; ++b)
        c.check(static_cast<int>(u.inp.count(make<T>(b))) == ((m[0] | m[2]) >> b & 1) && static_cast<int>(u.out.count(make<T>(b))) == ((m[1] | m[3]) >> b & 1), "union of port lists");
}
MC_MODEL(port_position_lists, "all pairs of lists over 4 positions: equality, hash and union", 1) { lists<port_position>(c); }
MC_MODEL(port_direction_lists, "all pairs of lists over 4 directions: equality, hash and union", 1) { lists<port_direction>(c); }

// ---------------------------------------------------------------- tiles
template <class G> static void directions(mc::ctx& c)
{
    const int mx = c.choose(4), my = c.choose(4), mz = c.choose(2);
    using L = G;
    const L l{{mx, my, mz}};
    const topo::geo g{topo::tr<L>::k, topo::tr<L>::odd, mx, my, mz};
    for (int x = 0; x <= mx; ++x)
        for (int y = 0; y <= my; ++y)
            for (int z = 0; z <= mz; ++z)
                for (int d = 0; d < 8; ++d)
                {
                    const auto to = port_direction_to_coordinate(l, coordinate<L>(x, y, z), port_direction{static_cast<port_direction::cardinal>(d)});
                    const auto e  = g.go({x, y, z}, d);
                    c.check(to == coordinate<L>(e.x, e.y, e.z), std::string{"tile in direction "} + topo::DN[d], std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + " of " + std::to_string(mx) + "," + std::to_string(my));
                    c.step();
                }
    std::set<topo::P> all;
    for (int x = 0; x <= mx; ++x)
        for (int y = 0; y <= my; ++y)
        {
            std::set<topo::P> n;
            for (int d : g.adj_dirs()) { const auto e = g.go({x, y, 0}, d); if (!(e == topo::P{x, y, 0})) n.insert(e); }
            c.check(num_adjacent_coordinates(l, coordinate<L>(x, y, 0)) == n.size(), "number of adjacent tiles");
        }
}
#define TOPOS(X) X(cart, cartesian_layout<offset::ucoord_t>) X(hor, (hexagonal_layout<offset::ucoord_t, odd_row_hex>)) X(her, (hexagonal_layout<offset::ucoord_t, even_row_hex>)) \
    X(hoc, (hexagonal_layout<offset::ucoord_t, odd_column_hex>)) X(hec, (hexagonal_layout<offset::ucoord_t, even_column_hex>)) X(sor, (shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>)) \
    X(ser, (shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>)) X(soc, (shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>)) X(sec, (shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>))
template <class T> struct arg;
template <class R, class A> struct arg<R(A)> { using t = A; };
#define DIRS(n, T) MC_MODEL(dirs_##n, "layouts up to 4x4x2: the tile each port direction leads to, adjacent tiles", 1) { directions<arg<void(T)>::t>(c); }
TOPOS(DIRS)

template <class G, int W, int H, class Cell> static void absolute(mc::ctx& c, int rx, int ry)
{
    using L = gate_level_layout<clocked_layout<tile_based_layout<G>>>;
    static const int T[] = {0, 1, 2, 3, 7, 100};
    const L l{{100, 100, 1}};
    const topo::geo g{topo::tr<G>::k, topo::tr<G>::odd, 100, 100, 1};
    constexpr bool hex = is_hexagonal_layout_v<L>;
    for (int x : T)
        for (int y : T)
            for (int z = 0; z < 2; ++z)
            {
                const auto a = relative_to_absolute_cell_position<W, H, L, Cell>(l, tile<L>(x, y, z), cell<Cell>(rx, ry));
                int ex = x * W, ey = y * H;
                if (hex && g.k == topo::ROWS) ey = y * (H * 3 / 4);
                if (hex && g.k == topo::COLS) ex = x * (W * 3 / 4);
                if (g.k == topo::ROWS && g.shoved(y)) ex += W / 2;
                if (g.k == topo::COLS && g.shoved(x)) ey += H / 2;
                c.check(static_cast<int64_t>(a.x) == ex + rx && static_cast<int64_t>(a.y) == ey + ry && static_cast<int64_t>(a.z) == z, "absolute position of a cell",
                        "tile " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + " size " + std::to_string(W) + "x" + std::to_string(H) + " cell " + std::to_string(rx) + "," + std::to_string(ry));
                c.step();
            }
}
template <class G, int W, int H> static void all_cells(mc::ctx& c)
{
    const bool cube = c.flip();
    for (int x = 0; x < W; x += W > 8 ? 7 : 1)
        for (int y = 0; y < H; y += H > 8 ? 5 : 1)
            cube ? absolute<G, W, H, stacked_qca_cell_clk_lyt>(c, x, y) : absolute<G, W, H, qca_cell_clk_lyt>(c, x, y);
}
template <class G> static void sizes(mc::ctx& c)
{
    switch (c.choose(10))
    {
        case 0: all_cells<G, 1, 1>(c); break;
        case 1: all_cells<G, 2, 1>(c); break;
        case 2: all_cells<G, 1, 3>(c); break;
        case 3: all_cells<G, 3, 2>(c); break;
        case 4: all_cells<G, 4, 4>(c); break;
        case 5: all_cells<G, 5, 5>(c); break;
        case 6: all_cells<G, 6, 3>(c); break;
        case 7: all_cells<G, 10, 10>(c); break;
        case 8: all_cells<G, 60, 46>(c); break;
        default: all_cells<G, 7, 8>(c);
    }
}
#define ABS(n, T) MC_MODEL(absolute_##n, "10 tile sizes from 1x1 to 60x46, all relative cells (of tiles above 8: every 5th or 7th), 36 tiles in 2 layers, offset and cube cells", 1) { sizes<arg<void(T)>::t>(c); }
TOPOS(ABS)

// ---------------------------------------------------------------- cell types
#define ROLE(T, f, S) c.check(T::f(t) == (std::string{S}.find(static_cast<char>(t)) != std::string::npos), #T "::" #f, std::string(1, static_cast<char>(t)))
MC_MODEL(cell_types, "all 256 values of the cell types, all modes, of all four technologies", 1)
{
    const int v = c.choose(256), tech = c.choose(4);
    const auto ch = static_cast<char>(v);
    if (tech == 0)
    {
        using T = qca_technology;
        const auto t = static_cast<T::cell_type>(v);
        ROLE(T, is_empty_cell, " "); ROLE(T, is_normal_cell, "x"); ROLE(T, is_input_cell, "i"); ROLE(T, is_output_cell, "o");
        ROLE(T, is_const_0_cell, "0"); ROLE(T, is_const_1_cell, "1"); ROLE(T, is_constant_cell, "01");
        if (v < 4)
        {
            const auto m = static_cast<T::cell_mode>(v);
            c.check(T::is_normal_cell_mode(m) == (v == 0) && T::is_rotated_cell_mode(m) == (v == 1) && T::is_vertical_cell_mode(m) == (v == 2) && T::is_crossover_cell_mode(m) == (v == 3), "QCA cell modes", std::to_string(v));
        }
        c.check(static_cast<char>(T::cell_mark::EMPTY) == ' ' && static_cast<char>(T::cell_mark::INPUT) == 'i' && static_cast<char>(T::cell_mark::OUTPUT) == 'o', "cell marks");
    }
    else if (tech == 1)
    {
        using T = mol_qca_technology;
        const auto t = static_cast<T::cell_type>(v);
        ROLE(T, is_empty_cell, " "); ROLE(T, is_normal_cell, "abcd"); ROLE(T, is_normal_cell1, "a"); ROLE(T, is_normal_cell2, "b"); ROLE(T, is_normal_cell3, "c"); ROLE(T, is_normal_cell4, "d");
        ROLE(T, is_input_cell, "i"); ROLE(T, is_output_cell, "o"); ROLE(T, is_const_0_cell, "0"); ROLE(T, is_const_1_cell, "1"); ROLE(T, is_constant_cell, "01");
        c.check(T::cell_clock_number(t) == (ch == 'b' ? 1u : ch == 'c' ? 2u : ch == 'd' ? 3u : 0u), "clock number of a molecular cell", std::string(1, ch));
        if (v < 4)
        {
            const auto m = static_cast<T::cell_mode>(v);
            c.check(T::is_normal_cell_mode(m) == (v == 0) && T::is_rotated_cell_mode(m) == (v == 1) && T::is_vertical_cell_mode(m) == (v == 2) && T::is_crossover_cell_mode(m) == (v == 3), "molecular cell modes", std::to_string(v));
        }
    }
    else if (tech == 2)
    {
        using T = inml_technology;
        const auto t = static_cast<T::cell_type>(v);
        ROLE(T, is_empty_cell, " "); ROLE(T, is_normal_cell, "x"); ROLE(T, is_input_cell, "i"); ROLE(T, is_output_cell, "o");
        ROLE(T, is_slanted_edge_up_magnet, "u"); ROLE(T, is_slanted_edge_down_magnet, "d"); ROLE(T, is_slanted_edge_magnet, "ud"); ROLE(T, is_inverter_magnet, "n"); ROLE(T, is_crosswire_magnet, "c"); ROLE(T, is_fanout_coupler_magnet, "f");
        c.check(T::is_normal_cell_mode({}), "iNML cell mode");
    }
    else
    {
        using T = sidb_technology;
        const auto t = static_cast<T::cell_type>(v);
        ROLE(T, is_empty_cell, " "); ROLE(T, is_normal_cell, "x"); ROLE(T, is_input_cell, "i"); ROLE(T, is_output_cell, "o"); ROLE(T, is_logic_cell, "l");
        c.check(T::is_normal_cell_mode({}), "SiDB cell mode");
    }
}

// ---------------------------------------------------------------- conversions
using sp = sidb::pos;  // n, m, l
static const sidb_technology::cell_type TY[] = {sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT, sidb_technology::cell_type::LOGIC};
struct dot
{
    int x, row;  // row: 2 * m + l
    int type;
    bool operator<(const dot& o) const { return std::tie(x, row) < std::tie(o.x, o.row); }
};
template <class L> static cell<L> at(int x, int row)
{
    if constexpr (has_siqad_coord_v<L>) return cell<L>(x, row >= 0 ? row / 2 : -((1 - row) / 2), ((row % 2) + 2) % 2);
    else return cell<L>(x, row);
}
template <class L> static std::string seen(const L& l, int lo, int hi, int dx = 0, int drow = 0)
{
    std::string s;
    size_t n = 0;
    for (int row = lo; row <= hi; ++row)
        for (int x = lo; x <= hi; ++x)
        {
            if constexpr (has_offset_ucoord_v<L>) if (x < 0 || row < 0) continue;
            const auto p = at<L>(x, row);
            if (const auto t = l.get_cell_type(p); t != sidb_technology::cell_type::EMPTY)
                s += std::to_string(x - dx) + "," + std::to_string(row - drow) + static_cast<char>(t) + l.get_cell_name(p) + " ", ++n;
        }
    if (n != l.num_cells()) s += "and " + std::to_string(l.num_cells() - n) + " elsewhere";
    return s;
}
template <class L> static L build(const std::vector<dot>& v, const std::vector<dot>& defects = {})
{
    L l{};
    l.set_layout_name("lay");
    l.set_tile_size_x(3);
    l.set_tile_size_y(5);
    int most_x = 0, most_y = 0;
    for (const auto& d : v) most_x = std::max(most_x, d.x), most_y = std::max(most_y, d.row);
    if constexpr (has_siqad_coord_v<L>) l.resize({most_x, most_y / 2, most_y % 2});
    else l.resize({most_x, most_y});
    for (const auto& d : v)
    {
        l.assign_cell_type(at<L>(d.x, d.row), TY[d.type]);
        if (d.type) l.assign_cell_name(at<L>(d.x, d.row), "n" + std::to_string(d.type));
    }
    if constexpr (is_sidb_defect_surface_v<L>)
        for (const auto& d : defects) l.assign_sidb_defect(at<L>(d.x, d.row), sidb_defect{d.type == 1 ? sidb_defect_type::DB : d.type == 2 ? sidb_defect_type::SI_VACANCY : sidb_defect_type::ARSENIC, static_cast<int64_t>(d.type - 2), 5.0 + d.type, 2.0});
    return l;
}
static std::vector<dot> dots(mc::ctx& c, int lo, int hi, int most, int types)
{
    std::vector<dot> v;
    const int w = hi - lo + 1;
    for (int i = -1; static_cast<int>(v.size()) < most;)
    {
        const int k = c.choose(w * w - i);  // 0: no more
        if (k == 0 || i + k >= w * w) break;
        i += k;
        v.push_back({lo + i % w, lo + i / w, c.choose(types)});
    }
    return v;
}
static std::string show(const std::vector<dot>& v, int dx = 0, int drow = 0)
{
    auto u = v;
    std::sort(u.begin(), u.end(), [](const auto& a, const auto& b) { return std::tie(a.row, a.x) < std::tie(b.row, b.x); });
    std::string s;
    for (const auto& d : u) s += std::to_string(d.x - dx) + "," + std::to_string(d.row - drow) + static_cast<char>(TY[d.type]) + (d.type ? "n" + std::to_string(d.type) : "") + " ";
    return s;
}
template <class L> static std::string defs(const L& l, int dx = 0, int drow = 0)
{
    std::set<std::string> s;
    l.foreach_sidb_defect([&](const auto& cd)
    {
        int x = static_cast<int>(cd.first.x), row = static_cast<int>(cd.first.y);
        if constexpr (has_siqad_coord_v<L>) row = 2 * row + static_cast<int>(cd.first.z);
        s.insert(std::to_string(x - dx) + "," + std::to_string(row - drow) + ":" + std::to_string(static_cast<int>(cd.second.type)) + "/" + std::to_string(cd.second.charge) + "/" + std::to_string(cd.second.epsilon_r));
    });
    std::string r;
    for (const auto& x : s) r += x + " ";
    return r;
}
template <class L> static void meta(mc::ctx& c, const L& l, const std::string& what)
{
    c.check(l.get_layout_name() == "lay" && l.get_tile_size_x() == 3 && l.get_tile_size_y() == 5, "layout name and tile size", what);
}
// the smallest position a converted layout with negative coordinates is shifted by
static void corner(const std::vector<dot>& v, bool siqad, int& dx, int& drow)
{
    int m = 1 << 30;
    dx = 1 << 30;
    for (const auto& d : v) dx = std::min(dx, d.x), m = std::min(m, siqad ? (d.row >= 0 ? d.row / 2 : -((1 - d.row) / 2)) : d.row);
    drow = siqad ? 2 * m : m;
}
template <class L> static void normalize(mc::ctx& c, int lo)
{
    const auto v = dots(c, lo, 2, c.thorough ? 4 : 3, 2);
    if (v.empty()) { c.prune(); return; }
    const auto l = build<L>(v);
    int dx, drow;
    corner(v, has_siqad_coord_v<L>, dx, drow);
    const auto n = normalize_layout_coordinates(l);
    c.check(seen(n, lo, 6) == show(v, dx, drow), "normalised layout", seen(n, lo, 6) + " instead of " + show(v, dx, drow) + " from " + show(v));
    c.check(seen(l, lo, 6) == show(v), "normalising changed the layout");
    meta(c, n, show(v));
    n.foreach_cell([&](const auto& p) { c.check(n.is_within_bounds(p), "normalised cell outside of the layout", show(v)); });
}
MC_MODEL(normalize_siqad, "up to 3 (thorough 4) dots of 2 types in a window of 4x4 lattice rows with negative positions, SiQAD coordinates", 8) { normalize<sidb_cell_clk_lyt_siqad>(c, -1); }
MC_MODEL(normalize_cube, "up to 3 (thorough 4) dots of 2 types in a window of 4x4 with negative positions, cube coordinates", 8) { normalize<sidb_cell_clk_lyt_cube>(c, -1); }
MC_MODEL(normalize_offset, "up to 3 (thorough 4) dots of 2 types in a window of 3x3, offset coordinates", 8) { normalize<sidb_cell_clk_lyt>(c, 0); }
MC_MODEL(normalize_layers, "up to 3 QCA cells in two layers of a 2x2 window: type, mode and name stay with the cell", 1)
{
    qca_cell_clk_lyt l{{3, 3, 1}, "lay"};
    std::map<std::array<int, 3>, int> want;
    const int ox = c.choose(2), oy = c.choose(2);
    for (int i = 0; i < 8; ++i)
    {
        const int k = c.choose(3);
        if (k == 0) continue;
        const int x = i % 2, y = i / 2 % 2, z = i / 4;
        const cell<qca_cell_clk_lyt> p(x + ox, y + oy, z);
        l.assign_cell_type(p, k == 1 ? qca_technology::cell_type::NORMAL : qca_technology::cell_type::INPUT);
        l.assign_cell_mode(p, static_cast<qca_technology::cell_mode>(k));
        if (k == 2) l.assign_cell_name(p, "p" + std::to_string(i));
        want[{x, y, z}] = k;
    }
    if (want.empty()) { c.prune(); return; }
    int dx = 9, dy = 9;
    for (const auto& [p, k] : want) dx = std::min(dx, p[0]), dy = std::min(dy, p[1]);
    const auto n = normalize_layout_coordinates(l);
    c.check(n.num_cells() == want.size(), "number of cells of a normalised layout");
    for (const auto& [p, k] : want)
    {
        const cell<qca_cell_clk_lyt> q(p[0] - dx, p[1] - dy, p[2]);
        c.check(static_cast<int>(n.get_cell_mode(q)) == k && n.get_cell_type(q) == (k == 1 ? qca_technology::cell_type::NORMAL : qca_technology::cell_type::INPUT), "normalised cell");
        c.check(n.get_cell_name(q) == (k == 2 ? "p" + std::to_string(p[0] + 2 * p[1] + 4 * p[2]) : ""), "name of a normalised cell");
    }
}
template <class F, class S> static void convert(mc::ctx& c, int lo)
{
    const auto v = dots(c, lo, 2, c.thorough ? 4 : 3, 2);
    const auto l = build<F>(v);
    const auto s = convert_layout_to_siqad_coordinates(l);
    const auto what = show(v);
    c.check(seen(s, lo, 4) == what, "layout converted to SiQAD coordinates", seen(s, lo, 4) + " instead of " + what);
    c.check(seen(l, lo, 4) == what, "converting changed the layout", what);
    meta(c, s, what);
    const auto b = convert_layout_to_fiction_coordinates<F>(s);
    c.check(seen(b, lo, 4) == what, "layout converted to SiQAD coordinates and back", seen(b, lo, 4) + " instead of " + what);
    meta(c, b, what);
    // and the other way round
    const auto l2 = build<S>(v);
    const auto f  = convert_layout_to_fiction_coordinates<F>(l2);
    c.check(seen(f, lo, 4) == what, "layout converted from SiQAD coordinates", seen(f, lo, 4) + " instead of " + what);
    c.check(are_cell_layouts_identical(f, l), "converted layout is identical to the one built directly", what);
}
MC_MODEL(convert_offset, "up to 3 (thorough 4) dots of 2 types in a 3x3 window: offset to SiQAD coordinates and back", 8) { convert<sidb_cell_clk_lyt, sidb_cell_clk_lyt_siqad>(c, 0); }
MC_MODEL(convert_cube, "up to 3 (thorough 4) dots of 2 types in a 4x4 window with negative positions: cube to SiQAD coordinates and back", 8) { convert<sidb_cell_clk_lyt_cube, sidb_cell_clk_lyt_siqad>(c, -1); }
MC_MODEL(convert_lattice_offset, "up to 3 (thorough 4) dots of 2 types in a 3x3 window on the 100 lattice: offset to SiQAD coordinates and back", 8) { convert<sidb_100_cell_clk_lyt, sidb_100_cell_clk_lyt_siqad>(c, 0); }
MC_MODEL(convert_lattice_cube, "up to 3 (thorough 4) dots of 2 types in a 4x4 window on the 111 lattice: cube to SiQAD coordinates and back", 8) { convert<sidb_111_cell_clk_lyt_cube, sidb_111_cell_clk_lyt_siqad>(c, -1); }
MC_MODEL(convert_negative, "up to 3 (thorough 4) dots in a 4x4 window with negative positions: SiQAD to unsigned coordinates shifts the whole layout", 8)
{
    const auto v = dots(c, -1, 2, c.thorough ? 4 : 3, 2);
    const auto l = build<sidb_100_cell_clk_lyt_siqad>(v);
    bool neg = false;
    for (const auto& d : v) neg = neg || d.x < 0 || d.row < 0;
    int dx = 0, drow = 0;
    if (neg) corner(v, true, dx, drow);
    const auto f = convert_layout_to_fiction_coordinates<sidb_100_cell_clk_lyt>(l);
    c.check(seen(f, 0, 6) == show(v, dx, drow), "shifted layout", seen(f, 0, 6) + " instead of " + show(v, dx, drow) + " from " + show(v));
}
MC_MODEL(convert_defects, "up to 2 dots and up to 2 defects in a 3x3 window: defect surfaces to SiQAD coordinates and back", 8)
{
    using F = sidb_defect_surface<sidb_100_cell_clk_lyt>;
    using S = sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>;
    const auto v = dots(c, 0, 2, 2, 2), d = dots(c, 0, 2, 2, 3);
    const auto l = build<F>(v, d);
    const auto s = convert_layout_to_siqad_coordinates(l);
    const auto what = show(v) + " defects " + defs(l);
    c.check(seen(s, 0, 4) == show(v) && defs(s) == defs(l), "defect surface converted to SiQAD coordinates", defs(s) + " instead of " + what);
    const auto b = convert_layout_to_fiction_coordinates<F>(build<S>(v, d));
    c.check(seen(b, 0, 4) == show(v) && defs(b) == defs(l), "defect surface converted from SiQAD coordinates", defs(b) + " instead of " + what);
    c.check(are_cell_layouts_identical(b, l), "converted defect surface is identical to the one built directly", what);
}
MC_MODEL(convert_charges, "up to 3 dots in a 3x3 window with all charge assignments: charge surfaces to SiQAD coordinates and back", 8)
{
    using F = charge_distribution_surface<sidb_100_cell_clk_lyt>;
    using S = charge_distribution_surface<sidb_100_cell_clk_lyt_siqad>;
    const auto v = dots(c, 0, 2, 3, 1);
    if (v.empty()) { c.prune(); return; }
    F f{build<sidb_100_cell_clk_lyt>(v)};
    S s{build<sidb_100_cell_clk_lyt_siqad>(v)};
    const sidb_simulation_parameters ps{3, -0.25, 6.1, 4.4};
    f.assign_physical_parameters(ps);
    s.assign_physical_parameters(ps);
    std::string want;
    for (const auto& d : v)
    {
        const auto q = c.pick(std::vector<sidb_charge_state>{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE});
        f.assign_charge_state(at<F>(d.x, d.row), q);
        s.assign_charge_state(at<S>(d.x, d.row), q);
    }
    const auto fs = convert_layout_to_siqad_coordinates(f);
    const auto sf = convert_layout_to_fiction_coordinates<F>(s);
    for (const auto& d : v)
    {
        const auto q = f.get_charge_state(at<F>(d.x, d.row));
        c.check(fs.get_charge_state(at<S>(d.x, d.row)) == q, "charge state after conversion to SiQAD coordinates", show(v));
        c.check(sf.get_charge_state(at<F>(d.x, d.row)) == q, "charge state after conversion from SiQAD coordinates", show(v));
    }
    c.check(fs.num_cells() == v.size() && sf.num_cells() == v.size(), "number of dots after conversion", show(v));
    c.check(fs.get_simulation_params().mu_minus == ps.mu_minus && sf.get_simulation_params().lambda_tf == ps.lambda_tf && sf.get_simulation_params().epsilon_r == ps.epsilon_r, "simulation parameters after conversion", show(v));
}
// ---------------------------------------------------------------- comparison
template <class L> struct variant_of
{
    std::vector<dot> v, d;
    std::vector<int> q;
    std::string      key() const
    {
        std::vector<std::string> k;
        for (size_t i = 0; i < v.size(); ++i) k.push_back(std::to_string(v[i].x) + "," + std::to_string(v[i].row) + ":" + std::to_string(v[i].type) + (q.empty() ? "" : "q" + std::to_string(q[i])));
        for (const auto& x : d) k.push_back("d" + std::to_string(x.x) + "," + std::to_string(x.row) + ":" + std::to_string(x.type));
        std::sort(k.begin(), k.end());
        std::string r;
        for (const auto& x : k) r += x + " ";
        return r;
    }
};
template <class A> static void compare(mc::ctx& c, const A& l, const A& m, const std::string& k, const std::string& h)
{
    const bool same = k == h;
    c.check(are_cell_layouts_identical(l, m) == same && are_cell_layouts_identical(m, l) == same, same ? "identical layouts are told apart" : "different layouts are called identical", k + "against " + h);
    c.check((cell_layout_digest(l) == cell_layout_digest(m)) == same, same ? "digests of identical layouts differ" : "digests of different layouts are equal", k + "against " + h);
}
MC_MODEL(identical, "pairs of layouts of up to 2 dots of 3 types in a 2x2 window, built in both orders and with a cell removed again", 16)
{
    using L = sidb_cell_clk_lyt_siqad;
    variant_of<L> a{dots(c, 0, 1, 2, 3), {}, {}}, b{dots(c, 0, 1, 2, 3), {}, {}};
    auto w = b.v;
    const int how = c.choose(3);
    if (how) std::reverse(w.begin(), w.end());
    const auto l = build<L>(a.v);
    auto m = build<L>(w);
    if (how == 2) m.assign_cell_type(at<L>(7, 7), sidb_technology::cell_type::NORMAL), m.assign_cell_type(at<L>(7, 7), sidb_technology::cell_type::EMPTY);
    compare(c, l, m, a.key(), b.key());
}
MC_MODEL(identical_defects, "pairs of defect surfaces of up to 1 dot and 2 defects of 3 kinds in a 2x2 window, in both orders", 16)
{
    using L = sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>;
    variant_of<L> a{dots(c, 0, 1, 1, 1), dots(c, 0, 1, 2, 3), {}}, b{dots(c, 0, 1, 1, 1), dots(c, 0, 1, 2, 3), {}};
    auto w = b.d;
    if (c.flip()) std::reverse(w.begin(), w.end());
    compare(c, build<L>(a.v, a.d), build<L>(b.v, w), a.key(), b.key());
}
MC_MODEL(identical_charges, "pairs of charge surfaces of up to 2 dots in a 2x2 window with all charges", 16)
{
    using L = charge_distribution_surface<sidb_100_cell_clk_lyt_siqad>;
    variant_of<L> a{dots(c, 0, 1, 2, 1), {}, {}}, b{dots(c, 0, 1, 2, 1), {}, {}};
    const auto make = [&](variant_of<L>& x)
    {
        L l{build<sidb_100_cell_clk_lyt_siqad>(x.v)};
        for (const auto& d : x.v)
        {
            x.q.push_back(c.choose(3) - 1);
            l.assign_charge_state(at<L>(d.x, d.row), x.q.back() < 0 ? sidb_charge_state::NEGATIVE : x.q.back() > 0 ? sidb_charge_state::POSITIVE : sidb_charge_state::NEUTRAL);
        }
        return l;
    };
    const auto l = make(a), m = make(b);
    compare(c, l, m, a.key(), b.key());
}
// ---------------------------------------------------------------- areas
template <class C> static C mk(int x, int row)
{
    if constexpr (std::is_same_v<C, siqad::coord_t>) return C(x, row >= 0 ? row / 2 : -((1 - row) / 2), ((row % 2) + 2) % 2);
    else return C(x, row);
}
template <class C> static void area(mc::ctx& c, int lo, int hi)
{
    const int x0 = c.range(lo, hi), y0 = c.range(lo, hi), x1 = c.range(lo, hi), y1 = c.range(lo, hi);
    const auto v = all_coordinates_in_spanned_area<C>(mk<C>(x0, y0), mk<C>(x1, y1));
    std::vector<C> e;
    for (int y = std::min(y0, y1); y <= std::max(y0, y1); ++y)
        for (int x = std::min(x0, x1); x <= std::max(x0, x1); ++x) e.push_back(mk<C>(x, y));
    c.check(v == e, "coordinates of an area", std::to_string(x0) + "," + std::to_string(y0) + " " + std::to_string(x1) + "," + std::to_string(y1) + ": " + std::to_string(v.size()) + " instead of " + std::to_string(e.size()));
}
MC_MODEL(area_offset, "all pairs of corners in 0..4, offset coordinates", 1) { area<offset::ucoord_t>(c, 0, 4); }
MC_MODEL(area_cube, "all pairs of corners in -2..2, cube coordinates", 1) { area<cube::coord_t>(c, -2, 2); }
MC_MODEL(area_siqad, "all pairs of corners in -3..2 (lattice rows), SiQAD coordinates", 1) { area<siqad::coord_t>(c, -3, 2); }
template <class C> static void randomly(mc::ctx& c, int lo)
{
    const int x0 = c.range(lo, lo + 2), y0 = c.range(lo, lo + 3), w = c.choose(3), h = c.choose(3);
    verif::owner = &c;
    auto a = mk<C>(x0, y0), b = mk<C>(x0 + w, y0 + h);
    if constexpr (std::is_same_v<C, siqad::coord_t>) if (b.y > a.y && b.z < a.z) { c.prune(); return; }
    const auto r = w == 0 || h == 0 || !c.flip() ? random_coordinate(a, b) : random_coordinate(b, a);
    int row = static_cast<int>(r.y);
    if constexpr (std::is_same_v<C, siqad::coord_t>) row = 2 * row + static_cast<int>(r.z);
    c.check(static_cast<int>(r.x) >= x0 && static_cast<int>(r.x) <= x0 + w && row >= y0 && row <= y0 + h, "random coordinate outside of the region",
            std::to_string(x0) + "," + std::to_string(y0) + " +" + std::to_string(w) + "," + std::to_string(h) + ": " + std::to_string(static_cast<int>(r.x)) + "," + std::to_string(row));
}
MC_MODEL(random_offset, "regions up to 3x3, every random outcome, corners in both orders, offset coordinates", 1) { randomly<offset::ucoord_t>(c, 0); }
MC_MODEL(random_cube, "regions up to 3x3, every random outcome, corners in both orders, cube coordinates", 1) { randomly<cube::coord_t>(c, -1); }
MC_MODEL(random_siqad, "regions up to 3x3 rows, every random outcome, corners in both orders, SiQAD coordinates", 1) { randomly<siqad::coord_t>(c, -1); }
