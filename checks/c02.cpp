// C02: coordinate iteration. Exhaustive over boxes, starts and iterator histories.
#include "mc.hpp"
#include <fiction/layouts/coordinates.hpp>

using namespace fiction;

template <class C>
static std::string S(const C& c)
{
    return std::string(c.is_dead() ? "dead" : "") + "(" + std::to_string(static_cast<long long>(c.x)) + "," +
           std::to_string(static_cast<long long>(c.y)) + "," + std::to_string(static_cast<long long>(c.z)) + ")";
}

struct P3
{
    long long x, y, z;
    bool operator==(const P3&) const = default;
};

template <class C>
constexpr bool is_siqad = std::is_same_v<C, siqad::coord_t>;

// reference enumeration of the box in the documented dimension order
template <class C>
static std::vector<P3> box(long long X, long long Y, long long Z)
{
    std::vector<P3> v;
    if constexpr (is_siqad<C>)
    {
        for (long long y = 0; y <= Y; ++y) for (long long z = 0; z <= Z; ++z) for (long long x = 0; x <= X; ++x) v.push_back({x, y, z});
    }
    else
    {
        for (long long z = 0; z <= Z; ++z) for (long long y = 0; y <= Y; ++y) for (long long x = 0; x <= X; ++x) v.push_back({x, y, z});
    }
    return v;
}
// reference carry of a start position: index into box(), or size() when nothing is left
template <class C>
static std::size_t first_index(P3 p, long long X, long long Y, long long Z)
{
    p.x = std::max(p.x, 0ll), p.y = std::max(p.y, 0ll), p.z = std::max(p.z, 0ll);
    if constexpr (is_siqad<C>)
    {
        if (p.x > X) { p.x = 0; ++p.z; }
        if (p.z > Z) { p.z = 0; ++p.y; }
        if (p.y > Y) return box<C>(X, Y, Z).size();
    }
    else
    {
        if (p.x > X) { p.x = 0; ++p.y; }
        if (p.y > Y) { p.y = 0; ++p.z; }
        if (p.z > Z) return box<C>(X, Y, Z).size();
    }
    const auto b = box<C>(X, Y, Z);
    return static_cast<std::size_t>(std::find(b.begin(), b.end(), p) - b.begin());
}

template <class C>
static void enumerate(mc::ctx& c, int maxxy, int maxz)
{
    const int X = c.range(0, maxxy), Y = c.range(0, maxxy), Z = c.range(0, maxz);
    const bool neg = !std::is_same_v<C, offset::ucoord_t>;
    const int sx = c.range(neg ? -1 : 0, X + 2), sy = c.range(neg ? -1 : 0, Y + 2);
    const int sz = c.range((neg && !is_siqad<C>) ? -1 : 0, is_siqad<C> || !neg ? 1 : Z + 2);
    const C ar{X, Y, Z};
    const auto ref = box<C>(X, Y, Z);
    auto       i   = first_index<C>({sx, sy, sz}, X, Y, Z);
    coord_iterator<C> it{ar, C{sx, sy, sz}};
    const std::string what = "box " + S(ar) + " from " + S(C{sx, sy, sz});
    c.note(what);
    if (sx == 0 && sy == 0 && sz == 0) c.sample(what);
    C last{};
    bool have = false;
    for (;; ++i)
    {
        const C got = *it;
        c.step();
        if (i >= ref.size())
        {
            c.check(got.is_dead(), "iteration runs past the end, " + what, S(got));
            c.check(got == ar.get_dead(), "end is not the dead extent, " + what, S(got));
            c.check(it == coord_iterator<C>(it), "copy differs");
            break;
        }
        c.check(!got.is_dead(), "iteration ends early, " + what, "expected (" + std::to_string(ref[i].x) + "," + std::to_string(ref[i].y) + "," + std::to_string(ref[i].z) + ")");
        c.check(P3{static_cast<long long>(got.x), static_cast<long long>(got.y), static_cast<long long>(got.z)} == ref[i], "wrong position, " + what, S(got));
        if (have)
        {
            c.check(last < got, "not ascending, " + what, S(last) + " " + S(got));
        }
        last = got;
        have = true;
        c.state(mc::hash_str(S(ar) + S(got)));
        if (i % 2 == 0)
        {
            ++it;
        }
        else
        {
            const auto old = it++;
            c.check(*old == got, "post-increment returns another position, " + what);
        }
    }
    // incrementing an ended iterator keeps it ended
    ++it;
    c.check((*it).is_dead(), "ended iteration comes back to life, " + what, S(*it));
}
MC_MODEL(offset_boxes, "extents up to 3x3x1 (thorough 6x6x1), starts up to 2 beyond", 4) { const int b = c.thorough ? 6 : 3; enumerate<offset::ucoord_t>(c, b, 1); }
MC_MODEL(cube_boxes, "extents up to 3x3x2 (thorough 6x6x2), starts from -1 to 2 beyond", 4) { const int b = c.thorough ? 6 : 3; enumerate<cube::coord_t>(c, b, 2); }
MC_MODEL(siqad_boxes, "extents up to 3x3x1 (thorough 6x6x1), starts from -1 to 2 beyond", 4) { const int b = c.thorough ? 6 : 3; enumerate<siqad::coord_t>(c, b, 1); }

// histories of increments, copies and comparisons on two iterators
template <class C>
static void histories(mc::ctx& c)
{
    static const std::vector<std::array<int, 3>> ars{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {2, 1, 0}};
    const auto& a = c.pick(ars);
    const C     ar{a[0], a[1], a[2]};
    const auto  ref = box<C>(a[0], a[1], a[2]);
    coord_iterator<C> i{ar, C{0, 0, 0}}, j{ar, C{0, 0, 0}};
    std::size_t       mi = 0, mj = 0;
    const int depth = c.thorough ? 8 : 6;
    for (int d = 0; d < depth; ++d)
    {
        const int op = c.choose(6);
        c.step();
        switch (op)
        {
            case 0: ++i; mi = std::min(mi + 1, ref.size()); break;
            case 1: { auto o = i++; c.check(*o == coord_iterator<C>(o).operator*(), "copy"); mi = std::min(mi + 1, ref.size()); break; }
            case 2: ++j; mj = std::min(mj + 1, ref.size()); break;
            case 3: j = i; mj = mi; break;
            case 4: i = j++; mi = mj; mj = std::min(mj + 1, ref.size()); break;
            case 5: { coord_iterator<C> k{i}; ++k; i = k; mi = std::min(mi + 1, ref.size()); break; }
        }
        const auto at = [&](const coord_iterator<C>& k, std::size_t m) {
            const C g = *k;
            if (m >= ref.size()) return g.is_dead();
            return !g.is_dead() && P3{static_cast<long long>(g.x), static_cast<long long>(g.y), static_cast<long long>(g.z)} == ref[m];
        };
        c.check(at(i, mi), "first iterator off in box " + S(ar), S(*i));
        c.check(at(j, mj), "second iterator off in box " + S(ar), S(*j));
        c.check((i == j) == (mi == mj), "equality in box " + S(ar));
        c.check((i != j) == (mi != mj), "inequality in box " + S(ar));
        if (mi < ref.size() && mj < ref.size())
        {
            c.check((i < j) == (mi < mj), "less in box " + S(ar));
            c.check((i <= j) == (mi <= mj), "less-equal in box " + S(ar));
        }
        c.state(mc::hash_mix(mc::hash_str(S(ar)), mi * 100 + mj));
    }
}
MC_MODEL(offset_histories, "8 boxes, all histories of 6 (thorough 8) operations on two iterators", 8) { histories<offset::ucoord_t>(c); }
MC_MODEL(cube_histories, "8 boxes, all histories of 6 (thorough 8) operations on two iterators", 8) { histories<cube::coord_t>(c); }
MC_MODEL(siqad_histories, "8 boxes, all histories of 6 (thorough 8) operations on two iterators", 8) { histories<siqad::coord_t>(c); }

// wrap() used directly: one step carry for every position just outside
template <class C>
static void wraps(mc::ctx& c)
{
    const int X = c.range(0, 3), Y = c.range(0, 3), Z = c.range(0, std::is_same_v<C, cube::coord_t> ? 2 : 1);
    const int x = c.range(0, X + 2), y = c.range(0, Y + 2), z = c.range(0, std::is_same_v<C, cube::coord_t> ? Z + 1 : 1);
    const C ar{X, Y, Z};
    C       p{x, y, z};
    p.wrap(ar);
    c.step();
    const auto ref = box<C>(X, Y, Z);
    const auto i   = first_index<C>({x, y, z}, X, Y, Z);
    const auto what = S(C{x, y, z}) + " in " + S(ar);
    if (i >= ref.size())
    {
        c.check(p == ar.get_dead(), "wrap does not die at " + what, S(p));
    }
    else
    {
        c.check(p == C{ref[i].x, ref[i].y, ref[i].z}, "wrap of " + what, S(p));
    }
    c.state(mc::hash_str(what));
}
MC_MODEL(offset_wrap, "extents up to 3x3x1, positions up to 2 beyond", 1) { wraps<offset::ucoord_t>(c); }
MC_MODEL(cube_wrap, "extents up to 3x3x2, positions up to 2 beyond", 1) { wraps<cube::coord_t>(c); }
MC_MODEL(siqad_wrap, "extents up to 3x3x1, positions up to 2 beyond", 1) { wraps<siqad::coord_t>(c); }
