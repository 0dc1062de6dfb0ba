// C07: combinatorial helpers.
#include "mc.hpp"
#include <fiction/utils/math_utils.hpp>
#include <fiction/utils/combination_utils.hpp>
#include <combinations.h>
#include <list>
#include <numeric>

using namespace fiction;
using vi = std::vector<int>;

static std::string S(const vi& v)
{
    std::string s = "[";
    for (auto x : v) s += std::to_string(x) + " ";
    return s + "]";
}

// Pascal's triangle with saturation at "not representable"
static const std::vector<std::vector<unsigned __int128>>& pascal()
{
    static std::vector<std::vector<unsigned __int128>> t;
    if (t.empty())
    {
        const unsigned __int128 cap = static_cast<unsigned __int128>(1) << 100;
        for (int n = 0; n <= 200; ++n)
        {
            t.emplace_back(static_cast<std::size_t>(n + 1), 1);
            for (int k = 1; k < n; ++k) t[n][k] = std::min(cap, t[n - 1][k - 1] + t[n - 1][k]);
        }
    }
    return t;
}
MC_MODEL(binomial, "all n, k <= 200 whose result fits 64 bits, and n up to 2^64-1 for k <= 2 or n-k <= 2", 4)
{
    const int m = c.choose(2);
    if (m == 0)
    {
        const int n = c.choose(201), k = c.choose(204);
        const auto got = [&] { c.step(); return binomial_coefficient(static_cast<uint64_t>(n), static_cast<uint64_t>(k)); };
        if (k > n) { c.check(got() == 0, "more elements than exist: " + std::to_string(n) + " over " + std::to_string(k)); return; }
        const auto want = pascal()[n][k];
        if (want >> 64) c.prune();
        const auto g = got();
        c.check(g == static_cast<uint64_t>(want), "binomial " + std::to_string(n) + " over " + std::to_string(k), std::to_string(g));
        c.state(mc::hash_mix(n, k));
        if (n == 64 && k == 32) c.sample("64 over 32 = " + std::to_string(g));
    }
    else
    {
        static const std::vector<uint64_t> ns{1000, 65536, 4294967295ull, 4294967296ull, 6074001000ull, 1ull << 63, ~0ull};
        const auto n = c.pick(ns);
        const int  k = c.choose(3);
        unsigned __int128 want = k == 0 ? 1 : k == 1 ? n : static_cast<unsigned __int128>(n) * (n - 1) / 2;
        if (want >> 64) c.prune();
        c.step(2);
        c.check(binomial_coefficient(n, static_cast<uint64_t>(k)) == static_cast<uint64_t>(want), "binomial " + std::to_string(n) + " over " + std::to_string(k));
        c.check(binomial_coefficient(n, n - static_cast<uint64_t>(k)) == static_cast<uint64_t>(want), "binomial " + std::to_string(n) + " over n-" + std::to_string(k));
        c.state(mc::hash_mix(n, k));
    }
}
MC_MODEL(distribute, "all n <= 11 (thorough 15), k <= n+2", 1)
{
    const int n = c.choose(c.thorough ? 16 : 12), k = c.choose(n + 3);
    const auto r = determine_all_combinations_of_distributing_k_entities_on_n_positions(static_cast<std::size_t>(k), static_cast<std::size_t>(n));
    c.step(r.size() + 1);
    const std::string what = std::to_string(k) + " on " + std::to_string(n);
    if (k > n || k == 0) { c.check(r.empty(), "combinations of " + what); return; }
    std::set<std::vector<std::size_t>> seen;
    for (const auto& v : r)
    {
        c.check(v.size() == static_cast<std::size_t>(k), "size of a combination, " + what);
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            c.check(v[i] < static_cast<std::size_t>(n), "position out of range, " + what);
            if (i) c.check(v[i - 1] < v[i], "combination not ascending, " + what);
        }
        if (!seen.empty()) c.check(*seen.rbegin() < v, "combinations not in ascending order, " + what);
        c.check(seen.insert(v).second, "duplicate combination, " + what);
        c.state(mc::hash_mix(v.size(), std::accumulate(v.begin(), v.end(), std::size_t{n * 1000u}, [](auto a, auto b) { return mc::hash_mix(a, b); })));
    }
    c.check(seen.size() == static_cast<std::size_t>(pascal()[n][k]), "number of combinations, " + what);
    c.sample(what + ": " + std::to_string(r.size()));
}
MC_MODEL(cartesian, "all shapes of up to 4 (thorough 5) dimensions with 0..3 elements each", 1)
{
    const int d = c.choose(c.thorough ? 6 : 5);
    std::vector<std::vector<int>> sets;
    std::size_t total = 1;
    std::string what = "shape";
    for (int i = 0; i < d; ++i)
    {
        const int n = c.choose(4);
        sets.emplace_back();
        for (int j = 0; j < n; ++j) sets.back().push_back(10 * i + j);
        total *= static_cast<std::size_t>(n);
        what += " " + std::to_string(n);
    }
    const auto r = cartesian_combinations(sets);
    c.step(r.size() + 1);
    c.check(r.size() == total, "number of tuples, " + what);
    for (std::size_t i = 0; i < r.size(); ++i)
    {
        std::size_t q = i;
        c.check(r[i].size() == sets.size(), "tuple size, " + what);
        for (std::size_t j = sets.size(); j-- > 0;)
        {
            c.check(r[i][j] == sets[j][q % sets[j].size()], "tuple " + std::to_string(i) + ", " + what);
            q /= sets[j].size();
        }
    }
    c.state(what);
    c.sample(what);
}

// ---- visitors. Reference: all sequences of r distinct elements, taken modulo the symmetry of the visitor
enum class kind { combination, permutation, circular, reversible, reversible_circular };
static vi canon(kind k, vi v)
{
    if (v.empty()) return v;
    const auto rot = [](vi a) { std::rotate(a.begin(), std::min_element(a.begin(), a.end()), a.end()); return a; };
    switch (k)
    {
        case kind::combination: std::sort(v.begin(), v.end()); return v;
        case kind::permutation: return v;
        case kind::circular: return rot(v);
        case kind::reversible: { vi w{v.rbegin(), v.rend()}; return std::min(v, w); }
        case kind::reversible_circular: { vi w{v.rbegin(), v.rend()}; return std::min(rot(v), rot(w)); }
    }
    return v;
}
static void all_arrangements(int n, int r, kind k, std::set<vi>& out, vi cur = {})
{
    if (static_cast<int>(cur.size()) == r) { out.insert(canon(k, cur)); return; }
    for (int i = 0; i < n; ++i)
    {
        if (std::find(cur.begin(), cur.end(), i) == cur.end()) { cur.push_back(i); all_arrangements(n, r, k, out, cur); cur.pop_back(); }
    }
}
template <class Cont, class F>
static void visit(kind k, Cont& v, int r, F f)
{
    const auto b = v.begin(), m = std::next(v.begin(), r), e = v.end();
    switch (k)
    {
        case kind::combination: combinations::for_each_combination(b, m, e, f); break;
        case kind::permutation: combinations::for_each_permutation(b, m, e, f); break;
        case kind::circular: combinations::for_each_circular_permutation(b, m, e, f); break;
        case kind::reversible: combinations::for_each_reversible_permutation(b, m, e, f); break;
        case kind::reversible_circular: combinations::for_each_reversible_circular_permutation(b, m, e, f); break;
    }
}
static uint64_t count(kind k, const vi& v, int r)
{
    const auto b = v.begin(), m = v.begin() + r, e = v.end();
    switch (k)
    {
        case kind::combination: return combinations::count_each_combination(b, m, e);
        case kind::permutation: return combinations::count_each_permutation(b, m, e);
        case kind::circular: return combinations::count_each_circular_permutation(b, m, e);
        case kind::reversible: return combinations::count_each_reversible_permutation(b, m, e);
        case kind::reversible_circular: return combinations::count_each_reversible_circular_permutation(b, m, e);
    }
    return 0;
}
static const char* NAMES[] = {"combination", "permutation", "circular permutation", "reversible permutation", "reversible circular permutation"};
template <class Cont>
static void visitor(mc::ctx& c, int maxn)
{
    const int ki = c.choose(5), n = c.choose(maxn + 1), r = c.choose(n + 1);
    const auto k = static_cast<kind>(ki);
    const std::string what = std::string(NAMES[ki]) + " " + std::to_string(r) + " of " + std::to_string(n);
    if (r == 0 && k == kind::reversible_circular) c.prune();  // std::next of an empty range, not promised
    std::set<vi> want;
    all_arrangements(n, r, k, want);
    Cont v;
    for (int i = 0; i < n; ++i) v.push_back(i);
    const Cont orig = v;
    std::set<vi> seen;
    std::vector<vi> order;
    visit(k, v, r, [&](auto b, auto e) {
        vi w;
        for (auto i = b; i != e; ++i) w.push_back(*i);
        c.step();
        order.push_back(w);
        c.check(static_cast<int>(w.size()) == r, "wrong length, " + what);
        c.check(want.count(canon(k, w)) == 1, "arrangement of wrong elements, " + what, S(w));
        c.check(seen.insert(canon(k, w)).second, "arrangement visited twice, " + what, S(w));
        return false;
    });
    c.check(seen.size() == want.size(), "arrangements missed, " + what, std::to_string(seen.size()) + " of " + std::to_string(want.size()));
    c.check(v == orig, "sequence left modified, " + what);
    vi vv(orig.begin(), orig.end());
    c.check(count(k, vv, r) == want.size(), "count, " + what, std::to_string(count(k, vv, r)));
    if (k == kind::combination)
    {
        for (std::size_t i = 1; i < order.size(); ++i) c.check(order[i - 1] < order[i], "combinations not in lexicographic order, " + what);
    }
    // early exit at every position
    const std::size_t stop = order.empty() ? 0 : static_cast<std::size_t>(c.choose(static_cast<int>(std::min<std::size_t>(order.size(), 40))));
    Cont v2 = orig;
    std::size_t calls = 0;
    visit(k, v2, r, [&](auto, auto) { return calls++ == stop; });
    c.check(calls == std::min(stop + 1, std::max<std::size_t>(order.size(), 1)), "does not stop when asked to, " + what, std::to_string(calls) + " calls");
    c.state(what);
    c.sample(what + ": " + std::to_string(seen.size()));
}
MC_MODEL(visitors_vector, "5 visitors, n <= 6 (thorough 8), all r <= n, 40 early exits each", 5) { visitor<std::vector<int>>(c, c.thorough ? 8 : 6); }
MC_MODEL(visitors_list, "5 visitors on a bidirectional list, n <= 5 (thorough 7)", 5) { visitor<std::list<int>>(c, c.thorough ? 7 : 5); }
MC_MODEL(counts, "counting functions for all d1, d2 <= 40: exact or overflow_error", 1)
{
    const int d1 = c.choose(41), d2 = c.choose(41);
    c.step(2);
    const auto want = pascal()[d1 + d2][d1];
    try
    {
        const auto g = combinations::count_each_combination<uint64_t>(static_cast<uint64_t>(d1), static_cast<uint64_t>(d2));
        c.check(!(want >> 64) && g == static_cast<uint64_t>(want), "count_each_combination " + std::to_string(d1) + "," + std::to_string(d2));
    }
    catch (const std::overflow_error&)
    {
        c.check(want >> 64, "spurious overflow " + std::to_string(d1) + "," + std::to_string(d2));
    }
    unsigned __int128 p = 1;
    for (int i = d2 + 1; i <= d1 + d2; ++i) { p *= static_cast<unsigned>(i); if (p >> 64) { p = static_cast<unsigned __int128>(1) << 64; } }
    try
    {
        const auto g = combinations::count_each_permutation<uint64_t>(static_cast<uint64_t>(d1), static_cast<uint64_t>(d2));
        c.check(g == p, "count_each_permutation " + std::to_string(d1) + "," + std::to_string(d2));
    }
    catch (const std::overflow_error&)
    {
        c.check(p >> 64, "spurious overflow in permutations " + std::to_string(d1) + "," + std::to_string(d2));
    }
    c.state(mc::hash_mix(d1, d2));
}
