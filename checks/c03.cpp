// C03: aspect-ratio enumeration.
#include "mc.hpp"
#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <map>
#include <memory>

using namespace fiction;

template <class C>
static void enumerate(mc::ctx& c)
{
    const uint64_t n = static_cast<uint64_t>(c.range(0, c.thorough ? 600 : 130));
    const uint64_t stop = std::max<uint64_t>(n, 1) + 14;
    aspect_ratio_iterator<C> it{n};
    const std::string what = "start " + std::to_string(n);
    c.note(what);
    if (n == 12)
    {
        c.sample(what + " first " + std::to_string(static_cast<long long>((*it).x)) + "x" + std::to_string(static_cast<long long>((*it).y)));
    }
    std::map<uint64_t, std::map<std::pair<uint64_t, uint64_t>, int>> got;
    uint64_t last = 0;
    for (; it <= stop; ++it)
    {
        const C    ar = *it;
        const auto w = static_cast<uint64_t>(ar.x) + 1, h = static_cast<uint64_t>(ar.y) + 1;
        const auto a = w * h;
        c.step();
        c.check(!ar.is_dead() && static_cast<long long>(ar.z) == 0, "not a planar live box, " + what);
        c.check(a >= last, "areas descend, " + what, std::to_string(a) + " after " + std::to_string(last));
        c.check(it == a && !(it != a) && it <= a && !(it < a) && it < a + 1 && !(it <= a - 1) && it != a + 1, "announced area differs, " + what,
                std::to_string(w) + "x" + std::to_string(h));
        c.check(a <= stop, "yields a box beyond the announced area, " + what);
        last = a;
        c.check(++got[a][{w, h}] == 1, "duplicate " + std::to_string(w) + "x" + std::to_string(h) + ", " + what);
        c.state(mc::hash_mix(w, h));
    }
    for (uint64_t a = std::max<uint64_t>(n, 1); a <= stop; ++a)
    {
        for (uint64_t w = 1; w <= a; ++w)
        {
            if (a % w == 0)
            {
                c.check(got[a].count({w, a / w}) == 1, "missing " + std::to_string(w) + "x" + std::to_string(a / w) + ", " + what);
                got[a].erase({w, a / w});
            }
        }
        c.check(got[a].empty(), "spurious box of area " + std::to_string(a) + ", " + what);
        got.erase(a);
    }
    c.check(got.empty(), "boxes of other areas, " + what);
}
MC_MODEL(enumerate_offset, "all starts 0..130 (thorough 600), 14 areas each", 8) { enumerate<offset::ucoord_t>(c); }
MC_MODEL(enumerate_cube, "all starts 0..130 (thorough 600), 14 areas each", 8) { enumerate<cube::coord_t>(c); }
MC_MODEL(large_areas, "areas around 2^16, primes, squares and products thereof, both coordinate systems", 4)
{
    static const std::vector<uint64_t> as{65521, 65536, 65537, 1000003, 999999, 1002001, 16777216, 4294967291ull, 4294967296ull, 4294836225ull};
    const auto a = c.pick(as);
    aspect_ratio_iterator<cube::coord_t> it{a};
    std::set<std::pair<uint64_t, uint64_t>> got;
    for (; it <= a; ++it)
    {
        const auto w = static_cast<uint64_t>((*it).x) + 1, h = static_cast<uint64_t>((*it).y) + 1;
        c.step();
        if (a > 4000000000ull && (w > 2147483647ull || h > 2147483647ull || w == 0 || h == 0))
        {
            continue;  // not representable in this coordinate system
        }
        c.check(w * h == a, "box of wrong area for " + std::to_string(a));
        c.check(got.insert({w, h}).second, "duplicate for " + std::to_string(a));
        if (got.size() > 2000) c.fail("too many boxes for " + std::to_string(a), "");
    }
    for (uint64_t w = 1; w * w <= a; ++w)
    {
        if (a % w == 0 && a / w <= 2147483647ull)
        {
            c.check(got.count({w, a / w}) == 1 && got.count({a / w, w}) == 1, "missing " + std::to_string(w) + " x " + std::to_string(a / w));
        }
    }
    c.state(a);
    c.sample("area " + std::to_string(a) + ": " + std::to_string(got.size()) + " boxes");
}

// all histories of operations on up to three iterators (heap allocated so that dangling copies are seen by ASan)
MC_MODEL(histories, "2 starts, all histories of 6 (thorough 7) operations on three slots", 8)
{
    using it_t = aspect_ratio_iterator<offset::ucoord_t>;
    const int op0 = c.choose(9);
    const int n = c.choose(2) == 0 ? 1 : 3;
    // reference sequence, taken from a fresh linear run
    static std::map<int, std::vector<std::pair<uint64_t, offset::ucoord_t>>> refs;
    auto& ref = refs[n];
    if (ref.empty())
    {
        it_t r{static_cast<uint64_t>(n)};
        for (int k = 0; k < 24; ++k, ++r)
        {
            const auto a = *r;
            ref.emplace_back((a.x + 1ull) * (a.y + 1ull), a);
        }
    }
    std::array<std::unique_ptr<it_t>, 3> s{std::make_unique<it_t>(n), nullptr, nullptr};
    std::array<int, 3>                   m{0, -1, -1};
    const int depth = c.thorough ? 7 : 6;
    std::string h = "start " + std::to_string(n);
    for (int d = 0; d < depth; ++d)
    {
        const int op = d == 0 ? op0 : c.choose(9);
        c.step();
        h += " " + std::to_string(op);
        switch (op)
        {
            case 0: ++*s[0]; ++m[0]; break;
            case 1: s[1] = std::make_unique<it_t>(*s[0]); m[1] = m[0]; break;                   // copy construct
            case 2: s[1] = std::make_unique<it_t>((*s[0])++); m[1] = m[0]++; break;             // post-increment
            case 3: if (!s[1]) c.prune(); ++*s[1]; ++m[1]; break;
            case 4: if (!s[1]) c.prune(); *s[0] = *s[1]; m[0] = m[1]; break;                    // copy assign
            case 5: if (!s[1]) c.prune(); s[0] = std::move(s[1]); m[0] = m[1]; m[1] = -1; break; // original destroyed
            case 6: if (!s[1]) c.prune(); *s[0] = std::move(*s[1]); s[1] = nullptr; m[0] = m[1]; m[1] = -1; break;  // move assign
            case 7: s[2] = std::make_unique<it_t>(*s[0]); m[2] = m[0]; break;
            case 8: if (!s[2]) c.prune(); *s[0] = (*s[2])++; m[0] = m[2]++; break;
        }
        for (int i = 0; i < 3; ++i)
        {
            if (!s[i]) continue;
            c.check(**s[i] == ref[m[i]].second && *s[i] == ref[m[i]].first, "iterator " + std::to_string(i) + " off after " + h);
            for (int j = 0; j < 3; ++j)
            {
                if (!s[j]) continue;
                c.check((*s[i] == *s[j]) == (m[i] == m[j]) && (*s[i] != *s[j]) == (m[i] != m[j]), "equality after " + h);
                c.check((*s[i] < *s[j]) == (m[i] < m[j]), "less after " + h);
                c.check((*s[i] <= *s[j]) == (m[i] <= m[j]), "less-equal after " + h);
            }
        }
        c.state(mc::hash_mix(mc::hash_mix(m[0], m[1]), mc::hash_mix(m[2], n)));
    }
    c.sample(h);
}
