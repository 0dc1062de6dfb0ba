// C38: BDL pairs and wires against their definitions; every input pattern through every way to reach it.
#include "sidbfic.hpp"
#include <fiction/algorithms/iter/bdl_input_iterator.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_pairs.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_wires.hpp>
using namespace fiction;
using sidb::pos;
using plain = sidb_100_cell_clk_lyt_siqad;
using cubel = sidb_100_cell_clk_lyt_cube;
using ty    = sidb_technology::cell_type;
static const ty TY[] = {ty::INPUT, ty::NORMAL, ty::OUTPUT, ty::LOGIC};
struct dot
{
    pos p;
    ty  t;
};
template <class L> static L build(const std::vector<dot>& v)
{
    L l{};
    for (const auto& d : v) l.assign_cell_type(sidb::at<L>(d.p), d.t);
    return l;
}
static std::string show(const std::vector<dot>& v)
{
    std::string s;
    for (const auto& d : v) s += sidb::str(d.p) + static_cast<char>(d.t) + " ";
    return s;
}
template <class L> static pos back(const cell<L>& p)
{
    if constexpr (has_siqad_coord_v<L>) return {static_cast<int>(p.x), static_cast<int>(p.y), static_cast<int>(p.z)};
    else return {static_cast<int>(p.x), static_cast<int>(p.y) / 2, static_cast<int>(p.y) % 2};
}
// nearest pairs first: no admissible pair is left whose dots are both in worse company
template <class L> static void pairs_ok(mc::ctx& c, const std::vector<dot>& v, ty t, const std::vector<bdl_pair<cell<L>>>& r, const detect_bdl_pairs_params& ps, const std::string& what)
{
    std::vector<pos> s;
    for (const auto& d : v) if (d.t == t) s.push_back(d.p);
    std::map<pos, double> with;
    for (size_t i = 0; i < r.size(); ++i)
    {
        const auto u = back<L>(r[i].upper), l = back<L>(r[i].lower);
        const auto d = sidb::dist(u, l);
        c.check(std::find(s.begin(), s.end(), u) != s.end() && std::find(s.begin(), s.end(), l) != s.end(), "pair of dots that are not there or of another type", what);
        c.check(r[i].type == t, "type of a pair", what);
        c.check(r[i].upper < r[i].lower, "upper and lower dot of a pair", what);
        c.check(d > ps.minimum_distance - 1e-9 && d < ps.maximum_distance + 1e-9, "distance of a pair outside of the limits", what + " " + std::to_string(d));
        c.check(with.emplace(u, d).second && with.emplace(l, d).second, "dot in two pairs", what);
        if (i) c.check(r[i - 1] < r[i], "pairs are not sorted", what);
    }
    for (size_t i = 0; i < s.size(); ++i)
        for (size_t j = i + 1; j < s.size(); ++j)
        {
            const auto d = sidb::dist(s[i], s[j]);
            if (d < ps.minimum_distance + 1e-9 || d > ps.maximum_distance - 1e-9) continue;
            const bool kept = (with.count(s[i]) && with[s[i]] <= d + 1e-9) || (with.count(s[j]) && with[s[j]] <= d + 1e-9);
            c.check(kept, "closer pair of dots left out", what + " " + sidb::str(s[i]) + sidb::str(s[j]));
        }
}
template <class L> static void all_pairs(mc::ctx& c, const std::vector<dot>& v, const detect_bdl_pairs_params& ps, const std::string& what)
{
    const auto l = build<L>(v);
    std::vector<bdl_pair<cell<L>>> sum;
    for (int i = 0; i < 4; ++i)
    {
        const auto r = detect_bdl_pairs(l, std::optional<ty>{TY[i]}, ps);
        pairs_ok<L>(c, v, TY[i], r, ps, what + " type " + static_cast<char>(TY[i]));
        if (i < 3) sum.insert(sum.end(), r.begin(), r.end());
    }
    auto all = detect_bdl_pairs(l, std::optional<ty>{}, ps);
    std::sort(all.begin(), all.end());
    std::sort(sum.begin(), sum.end());
    c.check(all == sum, "pairs of all types", what);
}
static const detect_bdl_pairs_params PS[] = {{0.75, 1.5}, {0, 1.0}, {0.384, 0.769}, {0.5, 100}, {0.2, 0.3}};
template <class L> static void subsets(mc::ctx& c, int cols, int rows, int most, bool types)
{
    std::vector<dot> v;
    const int n = cols * rows;
    for (int i = c.choose(n), k = 0;;)
    {
        v.push_back({{i % cols, i / cols / 2, i / cols % 2}, types ? TY[c.choose(4)] : ty::NORMAL});
        if (static_cast<int>(v.size()) == most) break;
        k = c.choose(n - i);
        if (k == 0) break;
        i += k;
    }
    const auto& ps = PS[c.choose(5)];
    all_pairs<L>(c, v, ps, show(v) + " limits " + std::to_string(ps.minimum_distance) + ".." + std::to_string(ps.maximum_distance));
}
MC_MODEL(pairs_one_type, "up to 5 (thorough 6) dots of one type in a window of 4x4 rows, 5 distance limits, SiQAD coordinates", 12) { subsets<plain>(c, 4, 4, c.thorough ? 6 : 5, false); }
MC_MODEL(pairs_wide, "up to 4 (thorough 5) dots of one type in a window of 7x4 rows, 5 distance limits, cube coordinates", 12) { subsets<cubel>(c, 7, 4, c.thorough ? 5 : 4, false); }
MC_MODEL(pairs_types, "up to 3 (thorough 4) dots of 4 types in a window of 4x4 rows, 5 distance limits", 12) { subsets<plain>(c, 4, 4, c.thorough ? 4 : 3, true); }

// ---------------------------------------------------------------- wires
struct chain
{
    int              dir;   // 0 diagonal to the right, 1 diagonal to the left, 2 vertical, 3 horizontal
    int              n;     // pairs
    bool             rev;   // the input is at the end that comes last
    bool             in, out;
    std::vector<dot> dots;                       // pair i: dots 2i, 2i+1
    ty type(int i) const { return i == (rev ? n - 1 : 0) && in ? ty::INPUT : i == (rev ? 0 : n - 1) && out ? ty::OUTPUT : ty::NORMAL; }
    void lay(int x, int y)
    {
        for (int i = 0; i < n; ++i)
        {
            static const int px[] = {6, -6, 0, 6}, py[] = {2, 2, 3, 0}, qx[] = {2, -2, 0, 2}, qy[] = {1, 1, 1, 0};
            const int X = x + px[dir] * i, Y = y + py[dir] * i;
            dots.push_back({{X, Y, 0}, type(i)});
            dots.push_back({{X + qx[dir], Y + qy[dir], 0}, type(i)});
        }
    }
    port_direction::cardinal port() const
    {
        using p = port_direction;
        if (n < 2 || (!in && !out)) return p::NONE;
        if (dir == 3) return rev ? p::WEST : p::EAST;
        return rev ? p::NORTH : p::SOUTH;
    }
};
template <class L> static std::string text(std::vector<bdl_pair<cell<L>>> v)
{
    std::vector<std::string> s;
    for (const auto& p : v) s.push_back(sidb::str(back<L>(p.upper)) + sidb::str(back<L>(p.lower)) + static_cast<char>(p.type) + " ");
    std::sort(s.begin(), s.end());
    std::string r;
    for (const auto& x : s) r += x;
    return r;
}
static std::string text(const chain& k, int skip = -1)
{
    std::vector<std::string> s;
    for (int i = 0; i < k.n; ++i)
    {
        auto a = k.dots[2 * i].p, b = k.dots[2 * i + 1].p;
        if (b < a) std::swap(a, b);
        if (skip >= 0 && k.type(i) == static_cast<ty>(skip)) continue;
        s.push_back(sidb::str(a) + sidb::str(b) + static_cast<char>(k.type(i)) + " ");
    }
    std::sort(s.begin(), s.end());
    std::string r;
    for (const auto& x : s) r += x;
    return r;
}
template <class L> static void wires(mc::ctx& c, const std::vector<chain>& ks)
{
    std::vector<dot> v;
    for (const auto& k : ks) v.insert(v.end(), k.dots.begin(), k.dots.end());
    const auto l    = build<L>(v);
    const auto what = show(v);
    detect_bdl_wires_params ps{};
    const auto same = [&](bdl_wire_selection sel, const std::string& kind)
    {
        std::multiset<std::string> e, g;
        std::map<std::string, const chain*> of;
        for (const auto& k : ks)
        {
            if (sel == bdl_wire_selection::INPUT && !k.in) continue;
            if (sel == bdl_wire_selection::OUTPUT && !k.out) continue;
            const auto t = text(k, sel == bdl_wire_selection::INPUT ? static_cast<int>(ty::OUTPUT) : sel == bdl_wire_selection::OUTPUT ? static_cast<int>(ty::INPUT) : -1);
            e.insert(t);
            of[t] = &k;
        }
        for (const auto& w : detect_bdl_wires(l, ps, sel))
        {
            const auto t = text<L>(w.pairs);
            g.insert(t);
            if (!of.count(t)) continue;
            const auto& k = *of[t];
            c.check(w.port.dir == k.port(), "direction of a wire", what + " wire " + t + ": " + fmt::format("{} instead of {}", w.port, port_direction{k.port()}));
            if (k.n < 2 || (!k.in && !k.out)) continue;
            const auto dotp = [&](int i) { auto a = k.dots[2 * i].p, b = k.dots[2 * i + 1].p; return b < a ? b : a; };
            c.check(w.first_bdl_pair && back<L>(w.first_bdl_pair->upper) == dotp(k.rev ? k.n - 1 : 0), "first pair of a wire", what + " wire " + t);
            c.check(w.last_bdl_pair && back<L>(w.last_bdl_pair->upper) == dotp(k.rev ? 0 : k.n - 1), "last pair of a wire", what + " wire " + t);
        }
        std::string got, want;
        for (const auto& x : g) got += "[" + x + "]";
        for (const auto& x : e) want += "[" + x + "]";
        c.check(e == g, "wires (" + kind + ")", what + ": " + got + " instead of " + want);
    };
    same(bdl_wire_selection::ALL, "all");
    bool equal = true;
    for (const auto& k : ks) equal = equal && k.n == ks[0].n;
    if (!equal) return;  // inputs of different lengths are not supported
    same(bdl_wire_selection::INPUT, "inputs");
    same(bdl_wire_selection::OUTPUT, "outputs");
}
static chain some(mc::ctx& c, int x, int y, int most)
{
    chain k;
    k.dir = c.choose(4);
    k.n   = 1 + c.choose(most);
    k.rev = c.flip();
    const int e = c.choose(k.n > 1 ? 4 : 3);
    k.in  = e & 1;
    k.out = e & 2;
    k.lay(x, y);
    return k;
}
MC_MODEL(one_wire, "straight chains of up to 5 pairs in 4 directions with an input, an output, both or none at either end", 1) { const auto k = some(c, 30, 0, 5); c.flip() ? wires<plain>(c, {k}) : wires<cubel>(c, {k}); }
MC_MODEL(two_wires, "two such chains of up to 3 pairs, far apart, at 3 relative heights", 4) { const auto a = some(c, 30, 10, 3); const auto b = some(c, 90, 10 + 5 * (c.choose(3) - 1), 3); wires<plain>(c, {a, b}); }
MC_MODEL(three_wires, "three such chains of up to 2 pairs, far apart", 16) { const auto a = some(c, 30, 10, 2); const auto b = some(c, 90, 10, 2); const auto d = some(c, 60, 30, 2); wires<plain>(c, {a, b, d}); }
MC_MODEL(partition, "any 4 (thorough 5) pairs out of 9 on a dense grid: the wires partition the pairs", 4)
{
    std::vector<dot> v;
    int k = 0;
    for (int i = 0; i < 9; ++i)
        if (k < (c.thorough ? 5 : 4) && c.flip())
            ++k, v.push_back({{5 * (i % 3), 3 * (i / 3), 0}, TY[i % 2 ? 1 : i == 0 ? 0 : i == 8 ? 2 : 1]}), v.push_back({{5 * (i % 3), 3 * (i / 3) + 1, 0}, TY[i % 2 ? 1 : i == 0 ? 0 : i == 8 ? 2 : 1]});
    const auto l = build<plain>(v);
    std::vector<bdl_pair<cell<plain>>> all;
    for (const auto& w : detect_bdl_wires(l))
    {
        all.insert(all.end(), w.pairs.begin(), w.pairs.end());
        c.check(!w.pairs.empty(), "empty wire", show(v));
        // every pair of a wire but the first follows another one within reach
        for (size_t i = 0; i < w.pairs.size() && w.pairs.size() > 1; ++i)
        {
            bool reach = false;
            for (size_t j = 0; j < w.pairs.size(); ++j)
                if (i != j) reach = reach || sidb::dist(back<plain>(w.pairs[i].lower), back<plain>(w.pairs[j].upper)) < 2.0 || sidb::dist(back<plain>(w.pairs[i].upper), back<plain>(w.pairs[j].lower)) < 2.0;
            c.check(reach, "pair of a wire out of reach of the others", show(v));
        }
    }
    c.check(text<plain>(all) == text<plain>(detect_bdl_pairs(l)), "wires do not partition the pairs", show(v));
}
// ---------------------------------------------------------------- input patterns
struct inputs
{
    std::vector<chain> ks;
    std::vector<dot>   rest;
    std::vector<dot>   v;
    std::vector<int>   order;  // chains in the order of their input pairs
    int                bits = 0;
    void               done()
    {
        for (size_t i = 0; i < ks.size(); ++i)
        {
            v.insert(v.end(), ks[i].dots.begin(), ks[i].dots.end());
            order.push_back(static_cast<int>(i));
        }
        v.insert(v.end(), rest.begin(), rest.end());
        std::sort(order.begin(), order.end(), [&](int a, int b) { return sidb::at<plain>(first(a)) < sidb::at<plain>(first(b)); });
        bits = static_cast<int>(ks.size());
    }
    pos first(int k) const
    {
        const int i = ks[k].rev ? ks[k].n - 1 : 0;
        const auto a = ks[k].dots[2 * i].p, b = ks[k].dots[2 * i + 1].p;
        return sidb::at<plain>(a) < sidb::at<plain>(b) ? a : b;
    }
    // the layout that shows pattern m
    template <class L> std::string expected(uint64_t m, bool absence) const
    {
        std::map<pos, ty> s;
        for (const auto& d : v) s[d.p] = d.t;
        for (int i = 0; i < bits; ++i)
        {
            const auto& k = ks[order[i]];
            const int  at = k.rev ? k.n - 1 : 0;
            auto       nearer = k.dots[2 * at].p, farther = k.dots[2 * at + 1].p;
            const auto end = k.dots[k.rev ? 0 : 2 * (k.n - 1)].p;
            if (sidb::dist(farther, end) < sidb::dist(nearer, end)) std::swap(nearer, farther);
            const bool one = m >> (bits - 1 - i) & 1;
            s.erase(one ? farther : nearer);
            if (!one && absence) s.erase(farther);
        }
        std::string r;
        for (const auto& [p, t] : s) r += sidb::str(p) + static_cast<char>(t);
        return r;
    }
    template <class L> static std::string seen(const L& l)
    {
        std::map<pos, ty> s;
        l.foreach_cell([&](const auto& p) { s[back<L>(p)] = l.get_cell_type(p); });
        std::string r;
        for (const auto& [p, t] : s) r += sidb::str(p) + static_cast<char>(t);
        return r;
    }
};
// kinds: 4 fixed arrangements, upward wires of any direction, wires of any direction and orientation at 2 heights
static inputs some_inputs(mc::ctx& c, int most, int mixed, bool tiny = false)
{
    inputs in;
    const int kind = c.choose(mixed ? 6 : 4), n = c.choose((kind < 4 ? most : mixed) + 1), len = 2 + (tiny ? 0 : c.choose(2));
    for (int i = 0; i < n; ++i)
    {
        chain k;
        k.n = len, k.in = true, k.out = false;
        k.dir = kind == 0 ? 0 : kind == 1 ? i % 2 : kind == 2 ? 2 : kind == 3 ? 3 : c.choose(4);
        k.rev = kind < 4 ? false : kind == 4 ? true : c.flip();
        k.lay(30 + 60 * i, 10 + (kind == 5 ? c.choose(2) * (3 * len - 1) : 0));
        in.ks.push_back(k);
    }
    if (tiny || c.flip()) in.rest = {{{200, 40, 0}, ty::OUTPUT}, {{200, 41, 0}, ty::OUTPUT}, {{150, 60, 0}, ty::NORMAL}};
    in.done();
    return in;
}
template <class L> static void patterns(mc::ctx& c, int depth, int most, bool tiny)
{
    const auto in = some_inputs(c, most, 0, tiny);
    const auto l  = build<L>(in.v);
    bdl_input_iterator_params ps{};
    const bool absence = c.flip();
    if (absence) ps.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    const auto what = show(in.v) + (absence ? " absence" : " distance") + " encoded";
    const auto mask = (uint64_t{1} << in.bits) - 1;
    const auto shows = [&](const bdl_input_iterator<L>& it, uint64_t m, const std::string& how)
    {
        c.check(it.get_current_input_index() == m && it == m && !(it != m), "input index " + how, what);
        const auto e = in.template expected<L>(m & mask, absence), g = inputs::seen(*it);
        c.check(e == g, "layout of an input pattern " + how, what + " pattern " + std::to_string(m) + ": " + g + " instead of " + e);
    };
    bdl_input_iterator<L> it{l, ps};
    c.check(it.num_input_pairs() == in.ks.size(), "number of inputs", what);
    shows(it, 0, "at first");
    uint64_t m = 0;
    for (int d = 0; d < depth; ++d)
    {
        switch (c.choose(11))
        {
            case 0: ++it, ++m; break;
            case 1: --it, --m; break;
            case 2: { const auto old = it++; ++m; shows(old, m - 1, "returned by ++"); break; }
            case 3: { const auto old = it--; --m; shows(old, m + 1, "returned by --"); break; }
            case 4: it += 2, m += 2; break;
            case 5: it -= 3, m -= 3; break;
            case 6: it = uint64_t{5}, m = 5; break;
            case 7: { const auto o = it + 3; shows(o, m + 3, "of a sum"); c.check(o - it == 3 && it - o == -3, "difference", what); break; }
            case 8: { const auto o = it - 1; shows(o, m - 1, "of a difference"); break; }
            case 9: shows(it[2], m + 2, "by index"); break;
            default: { auto o = it; ++o; shows(o, m + 1, "of a copy"); }
        }
        shows(it, m, "afterwards");
        c.check((m + 1 == 0 || it < m + 1) && (it <= m) && !(it < m) && (it >= m) && !(it > m), "comparisons", what);
    }
    c.check(inputs::seen(l) == inputs::seen(build<L>(in.v)), "the original layout changed", what);
}
MC_MODEL(input_patterns, "up to 3 input wires of 2 or 3 pairs in 4 arrangements, both encodings, all sequences of 2 (thorough 3) of 11 iterator operations", 24) { patterns<plain>(c, c.thorough ? 3 : 2, 3, false); }
MC_MODEL(input_histories, "up to 1 (thorough 2) input wires in 4 arrangements, both encodings, all sequences of 3 (thorough 4) iterator operations, cube coordinates", 24) { patterns<cubel>(c, c.thorough ? 4 : 3, c.thorough ? 2 : 1, true); }
MC_MODEL(all_patterns, "up to 3 (thorough 4) input wires in 4 arrangements and up to 2 (thorough 3) of any directions and orientations, both encodings: the list of all pattern layouts", 24)
{
    const auto in = some_inputs(c, c.thorough ? 4 : 3, c.thorough ? 3 : 2);
    const auto l  = build<plain>(in.v);
    bdl_input_iterator_params ps{};
    const bool absence = c.flip();
    if (absence) ps.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    const auto check = [&](const std::vector<plain>& ls)
    {
        c.check(ls.size() == size_t{1} << in.bits, "number of pattern layouts", show(in.v));
        for (size_t m = 0; m < ls.size(); ++m) c.check(inputs::seen(ls[m]) == in.expected<plain>(m, absence), "pattern layout", show(in.v) + " pattern " + std::to_string(m));
    };
    check(generate_bdl_input_pattern_layouts(l, ps));
    check(generate_bdl_input_pattern_layouts(l, ps, detect_bdl_wires(l, ps.bdl_wire_params, bdl_wire_selection::INPUT)));
    c.check(inputs::seen(l) == inputs::seen(build<plain>(in.v)), "the original layout changed");
}
