// C01: coordinate encoding, order, conversion, arithmetic. Exhaustive over value grids.
#include "mc.hpp"
#include <fiction/layouts/coordinates.hpp>
#include <limits>
#include <tuple>

using namespace fiction;

template <class C>
static std::string S(const C& c)
{
    return std::string(c.is_dead() ? "dead" : "") + "(" + std::to_string(static_cast<long long>(c.x)) + "," +
           std::to_string(static_cast<long long>(c.y)) + "," + std::to_string(static_cast<long long>(c.z)) + ")";
}

// ---------------------------------------------------------------- offset packing
static const std::vector<long long> OFF_XY{0, 1, 2, 3, 7, 255, 65535, 65536, (1ll << 30) - 1, 1ll << 30, (1ll << 31) - 2, (1ll << 31) - 1};

MC_MODEL(offset_codec, "12 x 12 x 2 positions including range ends, live and dead", 1)
{
    const auto x = c.pick(OFF_XY), y = c.pick(OFF_XY);
    const int  z = c.choose(2);
    const bool d = c.flip();
    offset::ucoord_t a{x, y, z};
    c.check(!a.is_dead(), "fresh coordinate dead");
    if (d)
    {
        a = a.get_dead();
    }
    c.check(a.is_dead() == d, "dead flag");
    c.check(static_cast<long long>(a.x) == x && static_cast<long long>(a.y) == y && static_cast<int>(a.z) == z, "fields " + S(a));
    const auto p = static_cast<uint64_t>(a);
    const offset::ucoord_t b{p};
    c.step(2);
    c.check(b.is_dead() == d && static_cast<long long>(b.x) == x && static_cast<long long>(b.y) == y && static_cast<int>(b.z) == z,
            "pack/unpack changes " + S(a), "got " + S(b));
    c.check(a == b && !(a != b) && a == p, "unpacked differs " + S(a));
    c.check(c.state(p), "two coordinates share the integer form of " + S(a));
    c.check(a.get_dead().is_dead() && a.get_dead().x == a.x && a.get_dead().y == a.y && a.get_dead().z == a.z, "get_dead " + S(a));
    const auto s = "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")";
    c.check(a.str() == s && fmt::format("{}", a) == s, "text of " + S(a), a.str());
    const offset::ucoord_t e{x, y};
    c.check(!e.is_dead() && e.z == 0 && e.x == a.x && e.y == a.y, "two-argument construction");
    c.sample(S(a) + " <-> " + std::to_string(p));
    // conversion to cube
    const auto q = offset_to_cube_coord(a);
    c.check(q.is_dead() == d, "offset to cube liveness " + S(a));
    if (!d)
    {
        c.check(q.x == x && q.y == y && q.z == z, "offset to cube " + S(a), S(q));
    }
    c.check(offset::ucoord_t{}.is_dead() && cube::coord_t{}.is_dead() && siqad::coord_t{}.is_dead(), "default coordinates are dead");
}

// every bit of the packed word is preserved
MC_MODEL(offset_bits, "all words with at most 3 set bits", 1)
{
    const int i = c.choose(65), j = c.choose(65), k = c.choose(65);
    uint64_t  w = 0;
    for (int b : {i, j, k})
    {
        w |= b < 64 ? (1ull << b) : 0;
    }
    const offset::ucoord_t a{w};
    c.step();
    c.check(static_cast<uint64_t>(a) == w, "word not preserved", std::to_string(w));
    c.check(a.is_dead() == ((w >> 63) != 0), "dead bit");
    c.state(w);
}

// ---------------------------------------------------------------- orders: pairs against a reference key
template <class C>
static void order_pair(mc::ctx& c, const C& a, const C& b, const std::tuple<long long, long long, long long>& ka,
                       const std::tuple<long long, long long, long long>& kb)
{
    c.step(6);
    const auto n = [&] { return " " + S(a) + " " + S(b); };
    c.check_lazy((a == b) == (ka == kb), [&] { return "equality" + n(); });
    c.check_lazy((a != b) == (ka != kb), [&] { return "inequality" + n(); });
    c.check_lazy((a < b) == (ka < kb), [&] { return "less" + n(); });
    c.check_lazy((a > b) == (ka > kb), [&] { return "greater" + n(); });
    c.check_lazy((a <= b) == (ka <= kb), [&] { return "less-equal" + n(); });
    c.check_lazy((a >= b) == (ka >= kb), [&] { return "greater-equal" + n(); });
    c.check_lazy(!(a == b.get_dead()), [&] { return "live equals dead" + n(); });
    c.check_lazy((a.get_dead() == b.get_dead()) == (ka == kb), [&] { return "dead equality" + n(); });
    c.state(mc::hash_mix(std::hash<C>{}(a), std::hash<C>{}(b)));
}
MC_MODEL(offset_order, "all pairs over 12 x 12 x 2 positions", 8)
{
    const auto x = c.pick(OFF_XY), y = c.pick(OFF_XY), u = c.pick(OFF_XY), v = c.pick(OFF_XY);
    const int  z = c.choose(2), w = c.choose(2);
    order_pair(c, offset::ucoord_t{x, y, z}, offset::ucoord_t{u, v, w}, {z, y, x}, {w, v, u});
}
static const std::vector<long long> CUBE_V{std::numeric_limits<int32_t>::min(), -70000, -2, -1, 0, 1, 2, 70000, std::numeric_limits<int32_t>::max()};
MC_MODEL(cube_order, "all pairs over 9^3 positions including range ends", 8)
{
    const auto x = c.pick(CUBE_V), y = c.pick(CUBE_V), z = c.pick(CUBE_V), u = c.pick(CUBE_V), v = c.pick(CUBE_V), w = c.pick(CUBE_V);
    order_pair(c, cube::coord_t{x, y, z}, cube::coord_t{u, v, w}, {z, y, x}, {w, v, u});
}
MC_MODEL(siqad_order, "all pairs over 9 x 9 x 2 positions including range ends", 8)
{
    const auto x = c.pick(CUBE_V), y = c.pick(CUBE_V), u = c.pick(CUBE_V), v = c.pick(CUBE_V);
    const int  z = c.choose(2), w = c.choose(2);
    order_pair(c, siqad::coord_t{x, y, z}, siqad::coord_t{u, v, w}, {y, z, x}, {v, w, u});
}

// ---------------------------------------------------------------- arithmetic
MC_MODEL(cube_arith, "all pairs over [-3,3]^3 and all triples over [-1,1]^3", 4)
{
    const int B = c.thorough ? 4 : 3;
    const auto mk = [&](int b) { const int x = c.range(-b, b), y = c.range(-b, b), z = c.range(-b, b); return cube::coord_t{x, y, z}; };
    const bool triple = c.flip();
    if (triple)
    {
        const auto p = mk(1), q = mk(1), r = mk(1);
        c.check((p + q) + r == p + (q + r), "associativity " + S(p) + S(q) + S(r));
        c.step(4);
        return;
    }
    const auto p = mk(B), q = mk(B);
    const auto s = p + q, t = p - q;
    c.step(2);
    c.check(!s.is_dead() && s.x == p.x + q.x && s.y == p.y + q.y && s.z == p.z + q.z, "sum " + S(p) + S(q), S(s));
    c.check(!t.is_dead() && t.x == p.x - q.x && t.y == p.y - q.y && t.z == p.z - q.z, "difference " + S(p) + S(q), S(t));
    c.check(s - q == p && t + q == p && q + p == s, "inverse " + S(p) + S(q));
    c.state(mc::hash_mix(mc::hash_str(S(p)), mc::hash_str(S(q))));
}
MC_MODEL(siqad_arith, "all pairs over x in [-3,3], y in [-4,4], both sublattices; all triples over a smaller grid", 4)
{
    const auto mk = [&](int bx, int by) { const int x = c.range(-bx, bx), y = c.range(-by, by), z = c.choose(2); return siqad::coord_t{x, y, z}; };
    // reference: y and sublattice form the row number 2y+z
    const auto row = [](const siqad::coord_t& a) { return 2ll * a.y + a.z; };
    const bool triple = c.flip();
    if (triple)
    {
        const auto p = mk(1, 2), q = mk(1, 2), r = mk(1, 2);
        c.step(4);
        c.check((p + q) + r == p + (q + r), "associativity " + S(p) + S(q) + S(r));
        return;
    }
    const int  b = c.thorough ? 7 : 4;
    const auto p = mk(3, b), q = mk(3, b);
    const auto s = p + q, t = p - q;
    c.step(2);
    c.check(!s.is_dead() && s.x == p.x + q.x && row(s) == row(p) + row(q), "sum " + S(p) + S(q), S(s));
    c.check(!t.is_dead() && t.x == p.x - q.x && row(t) == row(p) - row(q), "difference " + S(p) + S(q), S(t));
    c.check(s - q == p && t + q == p && q + p == s, "inverse " + S(p) + S(q));
    c.state(mc::hash_mix(mc::hash_str(S(p)), mc::hash_str(S(q))));
}

// ---------------------------------------------------------------- conversions
template <class F>
static void conv(mc::ctx& c, const siqad::coord_t& a)
{
    const auto f = siqad::to_fiction_coord<F>(a);
    c.step(2);
    c.check(!f.is_dead() && static_cast<long long>(f.x) == a.x && static_cast<long long>(f.y) == 2ll * a.y + a.z && static_cast<long long>(f.z) == 0,
            "siqad to fiction " + S(a), S(f));
    const auto g = siqad::to_siqad_coord<F>(f);
    c.check(g == a, "round trip of " + S(a), S(g));
    const auto dead = siqad::to_fiction_coord<F>(a.get_dead());
    c.check(dead.is_dead(), "dead coordinate converts to live one " + S(a));
}
MC_MODEL(conversion, "x, y in [-40,40] (and up to +-1e9) on both sublattices, both directions", 4)
{
    static const std::vector<long long> far{-1073741823, -1000000000, -99999, 99999, 1000000000, 1073741822};
    const bool       big = c.flip();
    const int        z = c.choose(2);
    const long long  x = big ? c.pick(far) : c.range(-40, 40);
    const long long  y = big ? c.pick(far) : c.range(-40, 40);
    const siqad::coord_t a{x, y, z};
    conv<cube::coord_t>(c, a);
    if (x >= 0 && y >= 0)
    {
        conv<offset::ucoord_t>(c, a);
    }
    // reverse direction
    const cube::coord_t q{x, y, 0};
    const auto          s = siqad::to_siqad_coord(q);
    c.check(!s.is_dead() && s.x == x && 2ll * s.y + s.z == y && (s.z == 0 || s.z == 1), "fiction to siqad " + S(q), S(s));
    c.check(siqad::to_fiction_coord<cube::coord_t>(s) == q, "reverse round trip of " + S(q));
    if (x >= 0 && y >= 0)
    {
        const offset::ucoord_t o{x, y, 0};
        const auto             t = siqad::to_siqad_coord(o);
        c.check(t == s, "offset and cube convert differently " + S(q), S(t));
        c.check(siqad::to_fiction_coord<offset::ucoord_t>(t) == o, "reverse round trip of offset " + S(o));
    }
    c.state(mc::hash_str(S(a)));
    c.sample(S(a) + " -> " + S(siqad::to_fiction_coord<cube::coord_t>(a)));
}
MC_MODEL(conversion_order, "all pairs with x in [-2,2], y in [-6,6], both sublattices", 4)
{
    const auto mk = [&] { const int x = c.range(-2, 2), y = c.range(-6, 6), z = c.choose(2); return siqad::coord_t{x, y, z}; };
    const auto a = mk(), b = mk();
    const auto f = siqad::to_fiction_coord<cube::coord_t>(a), g = siqad::to_fiction_coord<cube::coord_t>(b);
    c.step(2);
    c.check((a < b) == (f < g) && (a == b) == (f == g), "order not preserved " + S(a) + S(b));
    // conversion is a homomorphism of lattice translations
    c.check(siqad::to_fiction_coord<cube::coord_t>(a + b) == f + g, "sum not preserved " + S(a) + S(b));
    c.check(siqad::to_fiction_coord<cube::coord_t>(a - b) == f - g, "difference not preserved " + S(a) + S(b));
    c.state(mc::hash_str(S(a) + S(b)));
}
MC_MODEL(saturation, "y within 3 of the overflow thresholds and of the range ends", 1)
{
    constexpr long long mx = std::numeric_limits<int32_t>::max(), mn = std::numeric_limits<int32_t>::min();
    static const std::vector<long long> base{mx, mx / 2, mn, mn / 2};
    const auto b = c.pick(base);
    const long long y = b + c.range(-3, 3);
    const int z = c.choose(2), x = c.range(-1, 1);
    if (y > mx || y < mn)
    {
        c.prune();
    }
    const siqad::coord_t a{x, y, z};
    const auto f = siqad::to_fiction_coord<cube::coord_t>(a);
    const long long want = std::min(mx, std::max(mn, 2 * y + z));
    c.step();
    c.check(!f.is_dead() && f.x == x && f.y == want && f.z == 0, "saturation of " + S(a), S(f));
    // reverse direction never overflows
    const cube::coord_t q{x, y, 0};
    const auto s = siqad::to_siqad_coord(q);
    c.check(s.x == x && 2ll * s.y + s.z == y, "fiction to siqad " + S(q), S(s));
    c.state(mc::hash_str(S(a)));
}

// ---------------------------------------------------------------- area and volume
template <class C>
static void area_volume(mc::ctx& c, int x, int y, int z, bool flat)
{
    const C a{x, y, z};
    const auto ax = static_cast<uint64_t>(std::abs(x)), ay = static_cast<uint64_t>(std::abs(y)), az = static_cast<uint64_t>(std::abs(z));
    // counted by enumeration, not by formula
    uint64_t n2 = 0, n3 = 0;
    if (flat)
    {
        for (uint64_t r = 0; r <= 2 * ay + az; ++r) for (uint64_t i = 0; i <= ax; ++i) { ++n2; }
        n3 = n2;
    }
    else
    {
        for (uint64_t k = 0; k <= az; ++k) for (uint64_t j = 0; j <= ay; ++j) for (uint64_t i = 0; i <= ax; ++i) { ++n3; if (k == 0) { ++n2; } }
    }
    c.step(2);
    c.check(area(a) == n2, "area " + S(a), std::to_string(area(a)));
    c.check(volume(a) == n3, "volume " + S(a), std::to_string(volume(a)));
    c.state(mc::hash_mix(n2, mc::hash_str(S(a))));
}
MC_MODEL(area_vol, "all boxes spanned by x, y in [-12,12], z in range", 1)
{
    const int k = c.choose(3);
    const int x = c.range(-12, 12), y = c.range(-12, 12);
    if (k == 0)
    {
        area_volume<cube::coord_t>(c, x, y, c.range(-3, 3), false);
    }
    else if (k == 1)
    {
        area_volume<siqad::coord_t>(c, x, y, c.choose(2), true);
    }
    else if (x >= 0 && y >= 0)
    {
        area_volume<offset::ucoord_t>(c, x, y, c.choose(2), false);
    }
    // large extents must not wrap
    c.check(area(cube::coord_t{2000000000, 2000000000, 0}) == 2000000001ull * 2000000001ull, "large cube area");
    c.check(area(cube::coord_t{-2000000000, 2000000000, 0}) == 2000000001ull * 2000000001ull, "large negative cube area");
    c.check(area(siqad::coord_t{2000000000, 2000000000, 1}) == 2000000001ull * 4000000002ull, "large siqad area");
    c.check(area(offset::ucoord_t{2147483647, 2147483647, 0}) == (1ull << 62), "large offset area");
    c.check(volume(offset::ucoord_t{2147483647, 2147483647, 1}) == (1ull << 63), "large offset volume");
}
