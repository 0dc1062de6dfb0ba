// C04: Gray-code iterator.
#include "mc.hpp"
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
#include <bit>
#include <iterator>
#include <memory>

using namespace fiction;

// reference: reflect-and-prefix construction, not the xor formula
static uint64_t gray(uint64_t n)
{
    if (n < 2) return n;
    int k = 63;
    while (((n >> k) & 1) == 0) --k;
    const uint64_t half = 1ull << k;
    return half | gray(half - 1 - (n - half));
}

MC_MODEL(windows, "all starts 0..300 (thorough 4000) plus 90 around powers of two up to 2^63, 70 steps forth and back", 8)
{
    const bool big = c.flip();
    uint64_t s = 0;
    if (big)
    {
        const int k = c.range(9, 63), off = c.range(-2, 2);
        s = (1ull << k) + static_cast<uint64_t>(static_cast<int64_t>(off));
    }
    else
    {
        s = static_cast<uint64_t>(c.range(0, c.thorough ? 4000 : 300));
    }
    gray_code_iterator it{s};
    uint64_t prev = *it;
    c.check(*it == gray(s), "code of start " + std::to_string(s));
    std::set<uint64_t> seen{prev};
    for (uint64_t k = 1; k <= 70; ++k)
    {
        if (k % 3 == 0) { const auto o = it++; c.check(*o == prev, "post-increment value at " + std::to_string(s + k)); }
        else { ++it; }
        c.step();
        const uint64_t g = *it;
        c.check(g == gray(s + k), "code of " + std::to_string(s + k));
        c.check(std::popcount(g ^ prev) == 1, "more than one bit changes at " + std::to_string(s + k));
        c.check(seen.insert(g).second, "code repeats at " + std::to_string(s + k));
        c.check(it == s + k && !(it != s + k) && it <= s + k && it >= s + k && !(it < s + k) && !(it > s + k) && it > s + k - 1 && it < s + k + 1,
                "position comparison at " + std::to_string(s + k));
        c.check(it[k] == gray(s + k), "indexing at " + std::to_string(s + k));
        prev = g;
        c.state(g);
    }
    for (uint64_t k = 70; k-- > 0;)
    {
        if (k % 3 == 0) { const auto o = it--; c.check(*o == prev, "post-decrement value at " + std::to_string(s + k)); }
        else { --it; }
        c.step();
        c.check(*it == gray(s + k), "code of " + std::to_string(s + k) + " on the way back");
        prev = *it;
    }
    c.sample("start " + std::to_string(s));
}
MC_MODEL(aligned_windows, "all aligned windows of size 2^k, k <= 7 (thorough 12), below 2^14", 4)
{
    const int k = c.range(1, c.thorough ? 12 : 7);
    const uint64_t w = static_cast<uint64_t>(c.choose(1 << (14 - std::max(k, 6)))) << k;
    std::set<uint64_t> codes;
    gray_code_iterator it{w};
    for (; it < w + (1ull << k); ++it)
    {
        codes.insert(*it);
        c.step();
        if (codes.size() > (1ull << k)) c.fail("window never ends", "");
    }
    c.check(codes.size() == (1ull << k), "codes missing in window " + std::to_string(w) + "+2^" + std::to_string(k));
    // the codes of a window are exactly those sharing its prefix
    for (auto g : codes) c.check((g >> k) == (gray(w) >> k), "code outside of its window");
    c.state(mc::hash_mix(w, k));
}
MC_MODEL(histories, "3 starts, all histories of 5 (thorough 7) operations on two iterators", 8)
{
    const int op0 = c.choose(12);
    static const std::vector<uint64_t> starts{0, 5, (1ull << 32) - 2};
    const uint64_t s0 = c.pick(starts);
    auto a = std::make_unique<gray_code_iterator>(s0), b = std::make_unique<gray_code_iterator>(s0 + 3);
    uint64_t ma = s0, mb = s0 + 3;
    std::string h = "start " + std::to_string(s0);
    const int depth = c.thorough ? 7 : 5;
    for (int d = 0; d < depth; ++d)
    {
        const int op = d == 0 ? op0 : c.choose(12);
        c.step();
        h += " " + std::to_string(op);
        const auto need = [&](uint64_t v, uint64_t k) { if (v < k) c.prune(); };
        switch (op)
        {
            case 0: ++*a; ++ma; break;
            case 1: need(ma, 1); --*a; --ma; break;
            case 2: *a += 3; ma += 3; break;
            case 3: need(ma, 2); *a -= 2; ma -= 2; break;
            case 4: need(ma, 1); *a += -1; --ma; break;
            case 5: *a -= -2; ma += 2; break;
            case 6: b = std::make_unique<gray_code_iterator>(*a + 5); mb = ma + 5; break;
            case 7: need(ma, 1); b = std::make_unique<gray_code_iterator>(*a - 1); mb = ma - 1; break;
            case 8: b = std::make_unique<gray_code_iterator>((*a)++); mb = ma++; break;
            case 9: need(ma, 1); b = std::make_unique<gray_code_iterator>((*a)--); mb = ma--; break;
            case 10: *a = uint64_t{7}; ma = 7; break;
            case 11: a = std::make_unique<gray_code_iterator>(*b); ma = mb; break;
        }
        c.check(**a == gray(ma) && *a == ma, "first iterator off after " + h);
        c.check(**b == gray(mb) && *b == mb, "second iterator off after " + h);
        c.check((*a - *b) == static_cast<int64_t>(ma) - static_cast<int64_t>(mb), "difference after " + h);
        c.check((*a == *b) == (ma == mb) && (*a != *b) == (ma != mb), "equality after " + h);
        c.check((*a < *b) == (ma < mb), "less after " + h);
        c.check((*a <= *b) == (ma <= mb), "less-equal after " + h);
        c.check((*a < mb) == (ma < mb) && (*a <= mb) == (ma <= mb) && (*a > mb) == (ma > mb) && (*a >= mb) == (ma >= mb), "comparison with number after " + h);
        c.state(mc::hash_mix(ma, mb));
    }
    c.sample(h);
}
MC_MODEL(index_access, "all starts and indices up to 200 (thorough 1500)", 4)
{
    const int n = c.thorough ? 1500 : 200;
    const uint64_t s = static_cast<uint64_t>(c.choose(n)), i = static_cast<uint64_t>(c.choose(n));
    const gray_code_iterator it{s};
    c.step();
    c.check(it[i] == gray(s + i), "index " + std::to_string(i) + " from " + std::to_string(s));
    c.state(mc::hash_mix(s, i));
}
