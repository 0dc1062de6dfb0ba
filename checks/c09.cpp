// C09: searchable priority queue and lookup helpers.
#include "mc.hpp"
#include <fiction/utils/stl_utils.hpp>
#include <fiction/utils/map_utils.hpp>
#include <fiction/utils/array_utils.hpp>
#include <array>
#include <map>
#include <memory>
#include <unordered_map>

using namespace fiction;

template <class Cmp>
static void queue_history(mc::ctx& c, int depth, int alphabet)
{
    const int first = c.choose(alphabet + 1);
    searchable_priority_queue<int, std::vector<int>, Cmp> q;
    std::multiset<int> m;  // reference
    std::string h;
    for (int d = 0; d < depth; ++d)
    {
        const int op = d == 0 ? first : c.choose(alphabet + 1);
        c.step();
        if (op < alphabet) { q.push(op); m.insert(op); h += " push" + std::to_string(op); }
        else
        {
            if (m.empty()) { c.check(q.empty(), "queue not empty after" + h); c.prune(); }
            const int want = Cmp{}(0, 1) ? *m.rbegin() : *m.begin();
            c.check(q.top() == want, "wrong top after" + h);
            q.pop();
            m.erase(m.find(want));
            h += " pop";
        }
        c.check(q.size() == m.size() && q.empty() == m.empty(), "size after" + h);
        for (int v = 0; v < alphabet; ++v)
        {
            const bool in = m.count(v) != 0;
            const auto& cq = q;
            c.check(q.contains(v) == in && cq.contains(v) == in, "contains " + std::to_string(v) + " after" + h);
            const auto it = q.find(v);
            c.check((it != q.end()) == in && (!in || *it == v), "find " + std::to_string(v) + " after" + h);
            const auto ci = cq.find(v);
            c.check((ci != cq.end()) == in && (!in || *ci == v) && (ci != cq.cend()) == in, "const find " + std::to_string(v) + " after" + h);
        }
        std::multiset<int> all(q.begin(), q.end()), call(q.cbegin(), q.cend());
        c.check(all == m && call == m, "iteration after" + h);
        if (!m.empty()) c.check(q.top() == (Cmp{}(0, 1) ? *m.rbegin() : *m.begin()), "top after" + h);
        uint64_t s = 0;
        for (auto v : m) s = mc::hash_mix(s, static_cast<uint64_t>(v));
        c.state(s);
    }
    // copies are independent and drain in order
    auto copy = q;
    std::vector<int> drained;
    while (!copy.empty()) { drained.push_back(copy.top()); copy.pop(); }
    for (std::size_t i = 1; i < drained.size(); ++i) c.check(!Cmp{}(drained[i - 1], drained[i]), "drains out of order after" + h);
    c.check(std::multiset<int>(drained.begin(), drained.end()) == m && q.size() == m.size(), "drain after" + h);
    c.sample(h);
}
MC_MODEL(max_queue, "all histories of 7 (thorough 9) operations push 0..2 / pop", 4) { queue_history<std::less<int>>(c, c.thorough ? 9 : 7, 3); }
MC_MODEL(min_queue, "all histories of 7 (thorough 9) operations push 0..2 / pop", 4) { queue_history<std::greater<int>>(c, c.thorough ? 9 : 7, 3); }

MC_MODEL(two_of, "all pairs of sequences of length <= 5 (thorough 6) over 3 values, exact-size heap buffers", 6)
{
    const int n = c.choose(c.thorough ? 7 : 6), m = c.choose(c.thorough ? 6 : 5);
    auto a = std::make_unique<int[]>(static_cast<std::size_t>(n)), b = std::make_unique<int[]>(static_cast<std::size_t>(m));
    std::string what = "search";
    for (int i = 0; i < n; ++i) { a[i] = c.choose(3); what += std::to_string(a[i]); }
    what += " for ";
    for (int i = 0; i < m; ++i) { b[i] = c.choose(3); what += std::to_string(b[i]); }
    int want = n;
    for (int i = 0; i + 1 < n && want == n; ++i) for (int j = 0; j + 1 < m; ++j) if (a[i] == b[j] && a[i + 1] == b[j + 1]) { want = i; break; }
    c.note(what);
    const int* r = find_first_two_of(a.get(), a.get() + n, b.get(), b.get() + m);
    c.step();
    c.check(r - a.get() == want, what, "found at " + std::to_string(r - a.get()) + ", expected " + std::to_string(want));
    c.state(what);
    c.sample(what + " -> " + std::to_string(want));
}
MC_MODEL(tolerant_lookup, "all maps over 4 keys, 15 query offsets, ordered and unordered maps", 1)
{
    static const std::vector<double> keys{-1.0, 0.0, 0.5, 1000.0};
    static const std::vector<double> offs{0, 1e-9, -1e-9, 5e-7, -5e-7, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 2e-6, -2e-6, 1e-3, -1e-3, 0.1, -0.1};
    const int mask = c.choose(16);
    const double q = c.pick(keys) + c.pick(offs);
    std::map<double, int> m;
    std::unordered_map<double, int> u;
    for (int i = 0; i < 4; ++i) if ((mask >> i) & 1) { m[keys[i]] = i; u[keys[i]] = i; }
    int want = -1;
    for (int i = 0; i < 4; ++i) if (((mask >> i) & 1) && std::abs(keys[i] - q) < 1e-6) want = i;
    c.step(2);
    const auto it = find_key_with_tolerance(m, q);
    const auto iu = find_key_with_tolerance(u, q);
    const std::string what = "lookup of " + std::to_string(q) + " in key set " + std::to_string(mask);
    c.check(want < 0 ? it == m.cend() : (it != m.cend() && it->second == want), what);
    c.check(want < 0 ? iu == u.cend() : (iu != u.cend() && iu->second == want), what + " (unordered)");
    c.state(mc::hash_mix(mask, static_cast<uint64_t>(q * 1e7 + 1e9)));
}
MC_MODEL(arrays, "all values in [-3,3] per element of 3x2 arrays: creation and conversion keep content and order", 1)
{
    std::array<std::array<int, 2>, 3> a{};
    for (auto& r : a) for (auto& x : r) x = c.range(-1, 2);
    const auto l = convert_array_of_arrays<long>(a);
    static_assert(std::is_same_v<std::decay_t<decltype(l)>, std::array<std::array<long, 2>, 3>>);
    const auto f = convert_array<double>(a[1]);
    static_assert(std::is_same_v<std::decay_t<decltype(f)>, std::array<double, 2>>);
    const auto k = create_array<4>(a[2][1]);
    static_assert(std::is_same_v<std::decay_t<decltype(k)>, std::array<int, 4>>);
    c.step(3);
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 2; ++j) c.check(l[i][j] == a[i][j], "converted array of arrays");
    for (std::size_t j = 0; j < 2; ++j) c.check(f[j] == a[1][j], "converted array");
    for (auto x : k) c.check(x == a[2][1], "created array");
    uint64_t h = 0;
    for (auto& r : a) for (auto& x : r) h = mc::hash_mix(h, static_cast<uint64_t>(x + 5));
    c.state(h);
}
