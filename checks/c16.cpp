// C16: clocking schemes against their published cutouts; clocked layouts against a plain map of clock numbers.
#include "mc.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

using namespace fiction;
using cart    = clocked_layout<tile_based_layout<cartesian_layout<offset::ucoord_t>>>;
using cube_l  = clocked_layout<cartesian_layout<cube::coord_t>>;
using hex_or  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, odd_row_hex>>>;
using hex_er  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>;
using hex_oc  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, odd_column_hex>>>;
using hex_ec  = clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_column_hex>>>;
using shift_l = clocked_layout<tile_based_layout<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>>;

using table = std::vector<std::vector<int>>;
struct spec
{
    const char* base;
    int         phases, indeg, outdeg;
    bool        regular, linear;
    std::function<int(int, int)> f;
};
enum orient { NONE, OR, ER, OC, EC };
template <class L> constexpr orient ori()
{
    if constexpr (std::is_same_v<L, hex_or>) return OR;
    if constexpr (std::is_same_v<L, hex_er>) return ER;
    if constexpr (std::is_same_v<L, hex_oc>) return OC;
    if constexpr (std::is_same_v<L, hex_ec>) return EC;
    return NONE;
}
static int t(const table& tb, int x, int y) { return tb[y % tb.size()][x % tb[0].size()]; }
// half-tile rows: the row index advances by one every second row, starting in the rows that are shoved
static int half(int i, bool odd) { return odd ? (i + 1) / 2 : i / 2; }
static std::optional<spec> oracle(std::string n, orient o)
{
    for (auto& ch : n) ch = static_cast<char>(std::toupper(static_cast<unsigned char>(ch)));
    int p = 4;
    for (const auto* b : {"OPEN", "COLUMNAR", "ROW", "2DDWAVE", "2DDWAVEHEX"})
        for (int k : {3, 4})
            if (n == b + std::to_string(k)) { n = b; p = k; }
    if (n == "OPEN") return spec{"OPEN", p, 3, 3, false, false, [](int, int) { return 0; }};
    if (n == "COLUMNAR") return spec{"COLUMNAR", p, 3, 2, true, true, [p](int x, int) { return x % p; }};
    if (n == "ROW") return spec{"ROW", p, 3, 2, true, true, [p](int, int y) { return y % p; }};
    const spec dd{"2DDWAVE", p, 2, 2, true, true, [p](int x, int y) { return (x + y) % p; }};
    if (n == "2DDWAVE") return dd;
    if (n == "2DDWAVEHEX")
    {
        // on Cartesian topologies the lookup falls back to the standard scheme with four phases
        if (o == NONE) { spec d = dd; d.phases = 4; d.f = [](int x, int y) { return (x + y) % 4; }; return d; }
        if (o == OR || o == ER) return spec{"2DDWAVEHEX", p, 2, 2, true, true, [p, o](int x, int y) { return (x + half(y, o == OR)) % p; }};
        return spec{"2DDWAVEHEX", p, 2, 2, true, true, [p, o](int x, int y) { return (y + half(x, o == OC)) % p; }};
    }
    static const std::map<std::string, std::tuple<table, int, int, int>> m{
        {"USE", {{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 0, 3, 2}}, 4, 2, 2}},
        {"RES", {{{3, 0, 1, 2}, {0, 1, 0, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}}, 4, 3, 3}},
        {"ESR", {{{3, 0, 1, 2}, {0, 1, 2, 3}, {1, 2, 3, 0}, {0, 3, 2, 1}}, 4, 3, 3}},
        {"CFE", {{{0, 1, 0, 1}, {3, 2, 3, 2}, {0, 1, 0, 1}, {3, 2, 3, 2}}, 4, 3, 3}},
        {"RIPPLE", {{{0, 1, 2, 3}, {3, 2, 1, 0}, {0, 1, 2, 3}, {3, 2, 1, 0}}, 4, 3, 3}},
        {"SRS", {{{1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 3, 0}, {0, 1, 2, 1}}, 4, 3, 3}},
        {"BANCS", {{{0, 1, 2}, {2, 1, 0}, {2, 0, 1}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}}, 3, 2, 2}}};
    const auto it = m.find(n);
    if (it == m.end()) return std::nullopt;
    const auto& [tb, ph, i, ou] = it->second;
    return spec{it->first.c_str(), ph, i, ou, true, false, [tb = tb](int x, int y) { return t(tb, x, y); }};
}
static const std::vector<std::string> NAMES{"OPEN", "OPEN3", "OPEN4", "COLUMNAR", "COLUMNAR3", "COLUMNAR4", "ROW", "ROW3", "ROW4", "2DDWAVE", "2DDWAVE3", "2DDWAVE4", "2DDWAVEHEX", "2DDWAVEHEX3", "2DDWAVEHEX4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS",
    "use", "Use", "2ddwave3", "columnar4", "Row", "opEn3", "bancs", "2DDWaveHex",
    // no scheme
    "", "OPEN2", "USE4", "ROW5", "2DDWAVE ", " USE", "2DDWAVEHE", "BANC", "RESS", "COLUMNAR33"};
template <class L> static coordinate<L> mk(int x, int y, int z = 0) { return coordinate<L>(x, y, z); }

template <class L>
static void lookup(mc::ctx& c, const char* topo)
{
    const auto name = c.pick(NAMES);
    const auto o    = oracle(name, ori<L>());
    const auto s    = get_clocking_scheme<L>(name);
    const std::string what = std::string{topo} + " '" + name + "': ";
    c.step();
    c.check(s.has_value() == o.has_value(), what + "found or not");
    if (!o) { c.state(mc::hash_str(what)); return; }
    c.check(std::string{s->name} == o->base && *s == std::string{o->base}, what + "name", std::string{s->name});
    c.check(s->num_clocks == o->phases, what + "number of phases", std::to_string(s->num_clocks));
    c.check(s->is_regular() == o->regular, what + "regularity");
    c.check(is_linear_scheme<L>(*s) == o->linear, what + "linearity");
    c.check(s->max_in_degree == std::min<int>(static_cast<int>(L::max_fanin_size), o->indeg) || !o->regular, what + "documented in-degree");
    c.check(s->max_out_degree == o->outdeg || !o->regular, what + "documented out-degree");
    const auto numbers = [&](int x, int y, int z) {
        const auto cn = (*s)(mk<L>(x, y, z));
        c.step();
        c.state(mc::hash_mix(mc::hash_str(what), mc::hash_mix(x, mc::hash_mix(y, z))));
        c.check(cn < o->phases, what + "clock number is no phase");
        c.check(cn == o->f(x, y), what + "clock number", "(" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ") has " + std::to_string(cn) + ", not " + std::to_string(o->f(x, y)));
    };
    // overriding one tile changes that tile alone and never the scheme other users look up
    const int ox = c.choose(3), oy = c.choose(3), ocn = c.choose(6);
    if (ox == 0 && oy == 0 && ocn == 0)
    {
        for (int z = 0; z < 2; ++z)
            for (int y = 0; y < 26; ++y)
                for (int x = 0; x < 26; ++x) numbers(x, y, z);
        for (int x : {24, 9999, 120000, 1000003, 1073741000})
            for (int y : {0, 1, 5, 23, 70001, 1073741001}) { numbers(x, y, 0); numbers(y, x, 1); }
    }
    auto own = *s;
    own.override_clock_number(mk<L>(ox, oy), static_cast<uint8_t>(ocn));
    for (int z = 0; z < 2; ++z)
        for (int y = 0; y < 5; ++y)
            for (int x = 0; x < 5; ++x)
            {
                const bool hit = x == ox && y == oy && z == 0;
                c.step();
                c.check(own(mk<L>(x, y, z)) == (hit ? ocn % o->phases : o->f(x, y)), what + "after overriding one tile", std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z));
                c.check((*s)(mk<L>(x, y, z)) == o->f(x, y), what + "original scheme changed with its copy");
                c.check((*get_clocking_scheme<L>(name))(mk<L>(x, y, z)) == o->f(x, y), what + "registered scheme changed with its copy");
            }
    c.check(!own.is_regular(), what + "overridden, but still regular");
    c.sample(what + "checked");
}
#define LOOKUP(ID, T) MC_MODEL(ID, "40 names (all documented, other spellings, near misses) x 26x26x2 tiles and far ones x every single override of 3x3 tiles with 6 numbers", 8) { lookup<T>(c, #ID); }
LOOKUP(lookup_cartesian, cart)
LOOKUP(lookup_cube, cube_l)
LOOKUP(lookup_hex_odd_row, hex_or)
LOOKUP(lookup_hex_even_row, hex_er)
LOOKUP(lookup_hex_odd_column, hex_oc)
LOOKUP(lookup_hex_even_column, hex_ec)
LOOKUP(lookup_shifted, shift_l)

// direct constructor functions give the same schemes as the lookup
template <class L> static void direct(mc::ctx& c)
{
    const auto same = [&](const auto& a, const char* n) {
        const auto b = get_clocking_scheme<L>(n);
        c.check(a.num_clocks == b->num_clocks && a.name == b->name && a.max_in_degree == b->max_in_degree && a.max_out_degree == b->max_out_degree && a.is_regular() == b->is_regular(), std::string{n} + ": function and lookup differ");
        for (int y = 0; y < 26; ++y)
            for (int x = 0; x < 26; ++x) { c.step(); c.check(a(mk<L>(x, y)) == (*b)(mk<L>(x, y)), std::string{n} + ": function and lookup differ in a clock number"); }
        c.state(mc::hash_str(n));
    };
    same(open_clocking<L>(), "OPEN"); same(open_clocking<L>(num_clks::THREE), "OPEN3"); same(open_clocking<L>(num_clks::FOUR), "OPEN4");
    same(columnar_clocking<L>(), "COLUMNAR"); same(columnar_clocking<L>(num_clks::THREE), "COLUMNAR3"); same(columnar_clocking<L>(num_clks::FOUR), "COLUMNAR4");
    same(row_clocking<L>(), "ROW"); same(row_clocking<L>(num_clks::THREE), "ROW3"); same(row_clocking<L>(num_clks::FOUR), "ROW4");
    same(twoddwave_clocking<L>(), "2DDWAVE"); same(twoddwave_clocking<L>(num_clks::THREE), "2DDWAVE3"); same(twoddwave_clocking<L>(num_clks::FOUR), "2DDWAVE4");
    same(twoddwave_hex_clocking<L>(), "2DDWAVEHEX"); same(twoddwave_hex_clocking<L>(num_clks::FOUR), "2DDWAVEHEX4");
    same(use_clocking<L>(), "USE"); same(res_clocking<L>(), "RES"); same(esr_clocking<L>(), "ESR"); same(cfe_clocking<L>(), "CFE"); same(ripple_clocking<L>(), "RIPPLE"); same(srs_clocking<L>(), "SRS"); same(bancs_clocking<L>(), "BANCS");
}
MC_MODEL(functions, "all scheme functions against the lookup, 26x26 tiles, Cartesian and hexagonal", 1) { direct<cart>(c); direct<hex_er>(c); direct<hex_oc>(c); }

using Z = std::tuple<int, int, int>;
struct model  // the reference: scheme plus overrides
{
    spec             s;
    std::map<Z, int> over;
    bool             irregular;
    int cn(const Z& z) const { const auto i = over.find(z); return i != over.end() ? i->second : s.f(std::get<0>(z), std::get<1>(z)); }
};
template <class C> static Z zz(const C& k) { return {static_cast<int>(k.x), static_cast<int>(k.y), static_cast<int>(k.z)}; }
template <class L> static void compare(mc::ctx& c, const L& l, const model& m, const std::string& what)
{
    c.check(l.num_clocks() == m.s.phases && l.is_clocking_scheme(m.s.base) && l.is_regularly_clocked() == (m.s.regular && !m.irregular), what + "scheme of the layout");
    c.check(!l.is_clocking_scheme("OPEN") || std::string{m.s.base} == "OPEN", what + "wrong scheme name accepted");
    l.foreach_coordinate([&](const auto& k0) {
        const auto k = coordinate<L>(k0);
        std::set<Z> in, out, gin, gout, fin, fout;
        for (const auto& a : l.adjacent_coordinates(k))
        {
            const int d = (m.cn(zz(a)) - m.cn(zz(k)) + 2 * m.s.phases) % m.s.phases;
            if (d == m.s.phases - 1) in.insert(zz(a));
            if (d == 1) out.insert(zz(a));
            c.check(l.is_incoming_clocked(k, a) == (d == m.s.phases - 1) && l.is_outgoing_clocked(k, a) == (d == 1), what + "is_incoming/outgoing_clocked");
            c.check(l.is_incoming_clocked(k, a) == l.is_outgoing_clocked(a, k), what + "incoming and outgoing are not mutual");
            c.step();
        }
        c.check(l.get_clock_number(k) == m.cn(zz(k)), what + "clock number");
        c.check(!l.is_incoming_clocked(k, k) && !l.is_outgoing_clocked(k, k), what + "a tile feeds itself");
        size_t ni = 0, no = 0;
        for (const auto& a : l.incoming_clocked_zones(k)) { gin.insert(zz(a)); ++ni; }
        for (const auto& a : l.outgoing_clocked_zones(k)) { gout.insert(zz(a)); ++no; }
        l.foreach_incoming_clocked_zone(k, [&](const auto& a) { fin.insert(zz(a)); });
        l.foreach_outgoing_clocked_zone(k, [&](const auto& a) { fout.insert(zz(a)); });
        c.check(gin == in && ni == in.size() && fin == in, what + "incoming clocked zones");
        c.check(gout == out && no == out.size() && fout == out, what + "outgoing clocked zones");
        c.check(l.in_degree(k) == in.size() && l.out_degree(k) == out.size() && l.degree(k) == in.size() + out.size(), what + "degrees");
    });
}
// every scheme on every topology: zones, degrees, feed-forward
template <class L> static void zones(mc::ctx& c, const char* topo)
{
    static const std::vector<std::string> reg{"COLUMNAR3", "COLUMNAR4", "ROW3", "ROW4", "2DDWAVE3", "2DDWAVE4", "2DDWAVEHEX3", "2DDWAVEHEX4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS", "OPEN3", "OPEN4"};
    const auto name = c.pick(reg);
    const auto s = get_clocking_scheme<L>(name);
    const auto o = *oracle(name, ori<L>());
    L l{aspect_ratio<L>(12, 12, 0), *s};
    const std::string what = std::string{topo} + " " + name + ": ";
    compare(c, l, {o, {}, false}, what);
    c.state(mc::hash_str(what));
    const bool hex = ori<L>() != NONE || std::is_same_v<L, shift_l>;
    const bool hexs = name.rfind("2DDWAVEHEX", 0) == 0;
    if (!hex || (hexs && ori<L>() != NONE))
    {
        // the scheme is used on the topology it is made for: its degree promises hold on every tile
        l.foreach_coordinate([&](const auto& k0) {
            const auto k = coordinate<L>(k0);
            c.check(!o.regular || l.in_degree(k) <= s->max_in_degree, what + "in-degree above the promised maximum", std::to_string(l.in_degree(k)));
            c.check(!o.regular || l.out_degree(k) <= s->max_out_degree, what + "out-degree above the promised maximum", std::to_string(l.out_degree(k)));
        });
        if (is_linear_scheme<L>(*s))
            l.foreach_coordinate([&](const auto& k0) {  // feed-forward: information never returns
                const auto k = coordinate<L>(k0);
                for (const auto& a : l.outgoing_clocked_zones(k)) c.check(a.x + a.y > k.x + k.y || (hex && (a.x > k.x || a.y > k.y)), what + "flows backwards");
            });
    }
}
#define ZONES(ID, T) MC_MODEL(ID, "17 schemes on a 13x13 layout: clock numbers, incoming and outgoing zones, degrees, promises, every tile", 4) { zones<T>(c, #ID); }
ZONES(zones_cartesian, cart)
ZONES(zones_hex_odd_row, hex_or)
ZONES(zones_hex_even_row, hex_er)
ZONES(zones_hex_odd_column, hex_oc)
ZONES(zones_hex_even_column, hex_ec)
ZONES(zones_shifted, shift_l)

// histories of assignments, replacements, clones and copies
template <class L> static void history(mc::ctx& c, const char* topo)
{
    static const std::vector<std::string> sch{"OPEN3", "OPEN4", "2DDWAVE3", "USE"};
    const auto n0 = c.pick(sch);
    struct inst { L l; model m; };
    std::vector<std::shared_ptr<inst>> ls;  // independent layouts
    std::string what = std::string{topo} + " " + n0;
    ls.push_back(std::make_shared<inst>(inst{L{aspect_ratio<L>(2, 1, 1), *get_clocking_scheme<L>(n0)}, model{*oracle(n0, ori<L>()), {}, false}}));
    const int depth = c.thorough ? 4 : 3;
    for (int d = 0; d < depth; ++d)
    {
        const int which = c.choose(static_cast<int>(ls.size()));
        auto&     i = *ls[which];
        const int op = c.choose(6);
        what += " [" + std::to_string(which) + "]";
        if (op < 3)
        {
            static const Z zs[]{{0, 0, 0}, {1, 1, 0}, {1, 0, 1}};
            const auto& z = zs[op];
            const int cn = c.pick(std::vector<int>{0, 1, 2, 3, 5});
            i.l.assign_clock_number(mk<L>(std::get<0>(z), std::get<1>(z), std::get<2>(z)), static_cast<uint8_t>(cn));
            i.m.over[z] = cn % i.m.s.phases;
            i.m.irregular = true;
            what += "assign" + std::to_string(op) + "=" + std::to_string(cn);
        }
        else if (op == 3)
        {
            const auto n = c.pick(sch);
            i.l.replace_clocking_scheme(*get_clocking_scheme<L>(n));
            i.m = model{*oracle(n, ori<L>()), {}, false};
            what += "replace " + n;
        }
        else if (op == 4)
        {
            ls.push_back(std::make_shared<inst>(inst{L{i.l.clone()}, i.m}));
            what += "clone";
        }
        else
        {
            i.l.resize(aspect_ratio<L>(c.choose(3), 1, 1));
            what += "resize";
        }
        c.step();
        c.note(what);
        for (size_t k = 0; k < ls.size(); ++k) compare(c, ls[k]->l, ls[k]->m, what + " layout " + std::to_string(k) + ": ");
    }
    uint64_t h = 0;
    for (const auto& i : ls) for (const auto& [z, n] : i->m.over) h = mc::hash_mix(h, mc::hash_mix(std::get<0>(z) * 4 + std::get<2>(z), n + 7 * i->m.s.phases));
    c.state(h);
}
MC_MODEL(history_cartesian, "all sequences of 3 (thorough 4) assignments, scheme replacements, clones and resizes on any of the layouts so far, from 4 schemes", 4) { history<cart>(c, "Cartesian"); }
MC_MODEL(history_hex, "the same on a hexagonal layout", 4) { history<hex_er>(c, "even_row_hex"); }
