// C08: equality, ordering and hashing of value types.
#include "mc.hpp"
#include <fiction/utils/hash.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <array>
#include <functional>
#include <unordered_map>
#include <unordered_set>

using namespace fiction;

// Pairs and triples: equality is an equivalence, equal values hash equally, order is consistent with equality
template <class T, class Txt>
static void laws(mc::ctx& c, const std::string& type, const std::vector<T>& d, Txt txt, bool ordered)
{
    const int n = static_cast<int>(d.size());
    const int i = c.choose(n), j = c.choose(n);
    const auto &a = d[static_cast<std::size_t>(i)], &b = d[static_cast<std::size_t>(j)];
    const auto what = [&] { return type + " " + txt(a) + " " + txt(b); };
    c.step(4);
    c.check_lazy(a == a, [&] { return "not reflexive: " + what(); });
    c.check_lazy((a == b) == (b == a), [&] { return "not symmetric: " + what(); });
    const T cp{a};
    c.check_lazy(cp == a && std::hash<T>{}(cp) == std::hash<T>{}(a), [&] { return "copy differs: " + what(); });
    if (a == b)
    {
        c.check_lazy(std::hash<T>{}(a) == std::hash<T>{}(b), [&] { return "equal values hash differently: " + what(); });
        for (const auto& e : d) c.check_lazy((a == e) == (b == e), [&] { return "not transitive: " + what() + " " + txt(e); });
    }
    c.state(mc::hash_mix(mc::hash_str(type + txt(a)), static_cast<uint64_t>(i)));
    if (i == 1 && j == 2) c.sample(what());
    (void)ordered;
}
template <class T, class Txt>
static void order(mc::ctx& c, const std::string& type, const std::vector<T>& d, Txt txt, bool total)
{
    const int n = static_cast<int>(d.size());
    const int i = c.choose(n), j = c.choose(n);
    const auto &a = d[static_cast<std::size_t>(i)], &b = d[static_cast<std::size_t>(j)];
    const auto what = [&] { return type + " " + txt(a) + " " + txt(b); };
    c.step(2);
    c.check_lazy(!(a < a), [&] { return "not irreflexive: " + what(); });
    c.check_lazy(!(a < b && b < a), [&] { return "not antisymmetric: " + what(); });
    if (a == b) c.check_lazy(!(a < b) && !(b < a), [&] { return "equal but ordered: " + what(); });
    if (total && !(a == b)) c.check_lazy(a < b || b < a, [&] { return "different but unordered: " + what(); });
    if (a < b) for (const auto& e : d) if (b < e) c.check_lazy(a < e, [&] { return "not transitive: " + what() + " " + txt(e); });
    c.state(mc::hash_mix(mc::hash_str(type + txt(a)), static_cast<uint64_t>(j)));
}
static std::string T3(long long x, long long y, long long z, bool dead) { return (dead ? "dead(" : "(") + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")"; }

template <class C>
static std::vector<C> coords()
{
    std::vector<C> v;
    for (long long x : {0, 1, 2, 1000000}) for (long long y : {0, 1, 3, 2000000}) for (int z : {0, 1}) for (int dd : {0, 1})
    {
        const bool neg = !std::is_same_v<C, offset::ucoord_t>;
        for (int s = 0; s < (neg ? 2 : 1); ++s)
        {
            C q{s ? -x : x, s ? y - 4 : y, z};
            v.push_back(dd ? q.get_dead() : q);
        }
    }
    v.push_back(C{});
    return v;
}
template <class C>
static std::string cs(const C& q) { return T3(static_cast<long long>(q.x), static_cast<long long>(q.y), static_cast<long long>(q.z), q.is_dead()); }
MC_MODEL(coord_laws, "3 coordinate systems, 65-129 values incl. dead ones, all pairs (and triples among equals)", 1)
{
    switch (c.choose(3))
    {
        case 0: laws(c, "offset", coords<offset::ucoord_t>(), cs<offset::ucoord_t>, true); break;
        case 1: laws(c, "cube", coords<cube::coord_t>(), cs<cube::coord_t>, true); break;
        default: laws(c, "siqad", coords<siqad::coord_t>(), cs<siqad::coord_t>, true); break;
    }
}
template <class C>
static std::vector<C> live()
{
    auto v = coords<C>();
    v.erase(std::remove_if(v.begin(), v.end(), [](const C& q) { return q.is_dead(); }), v.end());
    return v;
}
MC_MODEL(coord_order, "3 coordinate systems, all live pairs and ascending triples", 1)
{
    switch (c.choose(3))
    {
        case 0: order(c, "offset", live<offset::ucoord_t>(), cs<offset::ucoord_t>, true); break;
        case 1: order(c, "cube", live<cube::coord_t>(), cs<cube::coord_t>, true); break;
        default: order(c, "siqad", live<siqad::coord_t>(), cs<siqad::coord_t>, true); break;
    }
}
static std::vector<port_position> ppos()
{
    std::vector<port_position> v;
    for (uint16_t x : {0, 1, 2, 3, 65535}) for (uint16_t y : {0, 1, 2, 4, 65535}) for (int pi : {0, 1}) for (int po : {0, 1}) v.emplace_back(x, y, pi, po);
    return v;
}
static std::string pps(const port_position& p) { return fmt::format("({},{},{},{})", p.x, p.y, p.pi, p.po); }
static std::vector<port_direction> pdir()
{
    std::vector<port_direction> v;
    for (int d = 0; d <= 8; ++d) for (int pi : {0, 1}) for (int po : {0, 1}) v.emplace_back(static_cast<port_direction::cardinal>(d), pi, po);
    return v;
}
static std::string pds(const port_direction& p) { return fmt::format("<{},{},{}>", p.dir, p.pi, p.po); }
MC_MODEL(port_laws, "100 port positions and 36 port directions, all pairs", 1)
{
    if (c.flip()) laws(c, "port position", ppos(), pps, true); else laws(c, "port direction", pdir(), pds, true);
}
MC_MODEL(port_order, "100 port positions and 36 port directions, all pairs and ascending triples", 1)
{
    if (c.flip()) order(c, "port position", ppos(), pps, true); else order(c, "port direction", pdir(), pds, true);
}
// port lists: built in every insertion order, equal contents are equal and hash equally
template <class P, class Txt>
static void lists(mc::ctx& c, const std::vector<P>& d, Txt txt, const std::string& type)
{
    const int n = static_cast<int>(d.size());
    const int mi = c.choose(1 << n), mo = c.choose(1 << n), mi2 = c.choose(1 << n), mo2 = c.choose(1 << n);
    const bool rev = c.flip();
    const auto mk = [&](int m, bool r) { std::set<P> s; for (int k = 0; k < n; ++k) { const int i = r ? n - 1 - k : k; if ((m >> i) & 1) s.insert(d[static_cast<std::size_t>(i)]); } return s; };
    port_list<P> a{mk(mi, false), mk(mo, false)}, b{mk(mi2, rev), mk(mo2, rev)};
    c.step(3);
    const auto what = type + " list " + std::to_string(mi) + "/" + std::to_string(mo) + " vs " + std::to_string(mi2) + "/" + std::to_string(mo2);
    c.check((a == b) == (mi == mi2 && mo == mo2), "list equality: " + what);
    if (a == b) c.check(std::hash<port_list<P>>{}(a) == std::hash<port_list<P>>{}(b), "equal lists hash differently: " + what);
    // accumulation is the union on each side
    auto u = a, v = b;
    u += v;
    c.check(u.inp == mk(mi | mi2, false) && u.out == mk(mo | mo2, false), "accumulated list: " + what);
    c.state(mc::hash_mix(mc::hash_mix(mi, mo), mc::hash_mix(mi2, mo2)));
    (void)txt;
}
MC_MODEL(port_lists, "all pairs of lists over 3 ports, both insertion orders, both port kinds", 2)
{
    if (c.flip()) lists<port_position>(c, {{0, 1}, {1, 0}, {2, 4}}, pps, "position");
    else lists<port_direction>(c, {port_direction{port_direction::NORTH}, port_direction{port_direction::EAST}, port_direction{port_direction::SOUTH_WEST}}, pds, "direction");
}
static std::vector<sidb_defect> defects()
{
    std::vector<sidb_defect> v;
    for (int t : {0, 1, 2, 3, 7, 13, 14}) for (int64_t q : {-1, 0, 1}) for (double e : {0.0, 5.6}) for (double l : {0.0, 5.0}) v.emplace_back(static_cast<sidb_defect_type>(t), q, e, l);
    v.emplace_back(sidb_defect_type::DB, 0, -0.0, 0.0);
    v.emplace_back(sidb_defect_type::DB, 0, 0.0, -0.0);
    return v;
}
MC_MODEL(defect_laws, "86 defects incl. signed zeros, all pairs; equality exactly when all fields agree", 1)
{
    const auto d = defects();
    laws(c, "defect", d, [](const sidb_defect& s) { return fmt::format("({},{},{},{})", static_cast<int>(s.type), s.charge, s.epsilon_r, s.lambda_tf); }, false);
    const auto& a = d[static_cast<std::size_t>(c.choose(static_cast<int>(d.size())))];
    for (const auto& b : d)
        c.check((a == b) == (a.type == b.type && a.charge == b.charge && a.epsilon_r == b.epsilon_r && a.lambda_tf == b.lambda_tf), "defect equality");
}

// ---- containers
MC_MODEL(containers, "arrays, sets, multisets, pairs over {0,1,2}: all pairs of values, all insertion orders", 1)
{
    const int k = c.choose(4);
    const auto tri = [&] { return std::array<int, 3>{c.choose(3), c.choose(3), c.choose(3)}; };
    const auto a = tri(), b = tri();
    c.step(2);
    const auto txt = [&] { return fmt::format("{}{}{} {}{}{}", a[0], a[1], a[2], b[0], b[1], b[2]); };
    if (k == 0)
    {
        if (a == b) c.check(std::hash<std::array<int, 3>>{}(a) == std::hash<std::array<int, 3>>{}(b), "arrays " + txt());
    }
    else if (k == 1)
    {
        const std::set<int> s{a.begin(), a.end()}, t{b.begin(), b.end()};
        if (s == t) c.check(std::hash<std::set<int>>{}(s) == std::hash<std::set<int>>{}(t), "sets " + txt());
    }
    else if (k == 2)
    {
        std::multiset<int> s{a.begin(), a.end()}, t{b.begin(), b.end()};
        if (s == t) c.check(std::hash<std::multiset<int>>{}(s) == std::hash<std::multiset<int>>{}(t), "multisets " + txt());
    }
    else
    {
        const std::pair<int, int> s{a[0], a[1]}, t{b[0], b[1]};
        if (s == t) c.check((std::hash<std::pair<int, int>>{}(s) == std::hash<std::pair<int, int>>{}(t)), "pairs " + txt());
    }
    c.state(txt() + std::to_string(k));
}
MC_MODEL(unordered_combination, "all multisets of up to 4 values over 5, combined in every order, equal results", 1)
{
    const int n = c.range(0, 4);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(c.range(1, 5));
    if (!std::is_sorted(v.begin(), v.end())) c.prune();
    const auto fold = [](const std::vector<int>& w) { std::size_t h = 17; for (auto x : w) hash_combine_unordered(h, x); return h; };
    const auto base = fold(v);
    auto p = v;
    std::string what;
    for (auto x : v) what += std::to_string(x) + " ";
    do
    {
        c.step();
        c.check(fold(p) == base, "order-independent hash depends on the order: " + what);
    } while (std::next_permutation(p.begin(), p.end()));
    c.state(base);
    c.sample(what);
}
// hashing is usable: ordered combination distinguishes order, arguments and counts on a small domain
MC_MODEL(combination_sensitivity, "hash_combine over all sequences of length <= 3 over 4 values: no collisions, variadic equals repeated", 1)
{
    const int n = c.range(1, 3);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(c.range(1, 4));
    std::size_t h = 0, g = 0;
    for (auto x : v) hash_combine(h, x);
    if (n == 1) hash_combine(g, v[0]); else if (n == 2) hash_combine(g, v[0], v[1]); else hash_combine(g, v[0], v[1], v[2]);
    c.step(2);
    c.check(h == g, "variadic combination differs from repeated combination");
    c.state(h);
}
