// C33: charge distribution surfaces under every update history against directly evaluated electrostatics.
#include "mc.hpp"
#include "sidb.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/types.hpp>
#include <memory>

using namespace fiction;
using S     = sidb_charge_state;
using plain = sidb_cell_clk_lyt_siqad;
using offs  = sidb_100_cell_clk_lyt;
using cubel = sidb_100_cell_clk_lyt_cube;
using defl  = sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>;

template <class L> static cell<L> at(const sidb::pos& p)
{
    if constexpr (has_siqad_coord_v<L>) return {p.n, p.m, p.l};
    else return cell<L>{p.n, 2 * p.m + p.l};
}
static S    cs(int q) { return q < 0 ? S::NEGATIVE : q > 0 ? S::POSITIVE : S::NEUTRAL; }
static int  sg(S s) { return s == S::NEGATIVE ? -1 : s == S::POSITIVE ? 1 : s == S::NEUTRAL ? 0 : 9; }
static bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max(1.0, std::abs(b)); }
template <class L> static L layout(const std::vector<sidb::pos>& v)
{
    L l{};
    for (const auto& p : v) l.assign_cell_type(at<L>(p), sidb_technology::cell_type::NORMAL);
    return l;
}
static sidb_simulation_parameters params(const sidb::phys& p, int base)
{
    return sidb_simulation_parameters{static_cast<uint8_t>(base), p.mu, p.eps, p.lam};
}
static std::vector<std::vector<sidb::pos>> shapes()
{
    return {{{0, 0, 0}},
            {{0, 0, 0}, {0, 0, 1}},
            {{0, 0, 0}, {2, 0, 1}},
            {{0, 0, 0}, {1, 0, 0}, {6, 0, 0}},
            {{0, 0, 0}, {2, 0, 0}, {1, 1, 1}},
            {{0, 0, 1}, {1, 0, 1}, {2, 0, 1}, {7, 1, 0}}};
}
// dots in the order the surface stores them
template <class L> static std::vector<sidb::pos> ordered(std::vector<sidb::pos> v)
{
    std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return at<L>(a) < at<L>(b); });
    return v;
}
static const sidb::phys PH[] = {{-0.32, 5.6, 5.0}, {-0.1, 4.1, 3.0}, {-0.25, 6.5, 7.0}};

// everything a surface reports, compared with the model m and charges n
template <class CD> static void compare(mc::ctx& c, const CD& cd, const sidb::model& m, const std::vector<int>& n, bool pot, bool energy,
                                        bool validity, const std::string& what)
{
    using L = CD;
    int neg = 0, neu = 0, pos = 0;
    for (size_t i = 0; i < m.s.size(); ++i)
    {
        const auto cl = at<L>(m.s[i]);
        c.check(cd.cell_to_index(cl) == static_cast<int64_t>(i) && cd.index_to_cell(i) == cl, "index of a dot", what);
        c.check(sg(cd.get_charge_state(cl)) == n[i] && sg(cd.get_charge_state_by_index(i)) == n[i], "charge state", what + " dot " + std::to_string(i) + " expected " + sidb::str(n));
        neg += n[i] < 0, neu += n[i] == 0, pos += n[i] > 0;
        if (!pot) continue;
        const double in = m.pot_int(i, n);
        c.check(near(*cd.get_local_internal_potential(cl), in) && near(*cd.get_local_internal_potential_by_index(i), in), "internal potential",
                what + " dot " + std::to_string(i) + ": " + std::to_string(*cd.get_local_internal_potential(cl)) + " expected " + std::to_string(in));
        c.check(near(*cd.get_local_external_potential(cl), m.ext[i]) && near(*cd.get_local_external_potential_by_index(i), m.ext[i]), "external potential",
                what + " dot " + std::to_string(i) + ": " + std::to_string(*cd.get_local_external_potential(cl)) + " expected " + std::to_string(m.ext[i]));
        c.check(near(*cd.get_local_potential(cl), in + m.ext[i]) && near(*cd.get_local_potential_by_index(i), in + m.ext[i]), "local potential", what);
        c.check(near(*cd.get_local_potential_caused_by_defects(cl), m.pot_defects(i)) && near(*cd.get_local_potential_caused_by_defects_by_index(i), m.pot_defects(i)),
                "defect potential", what);
    }
    c.check(cd.num_negative_sidbs() == static_cast<size_t>(neg) && cd.num_neutral_sidbs() == static_cast<size_t>(neu) &&
                cd.num_positive_sidbs() == static_cast<size_t>(pos),
            "charge counts", what);
    c.check(cd.charge_exists(S::NEGATIVE) == (neg > 0) && cd.charge_exists(S::NEUTRAL) == (neu > 0) && cd.charge_exists(S::POSITIVE) == (pos > 0), "charge exists", what);
    if (energy)
        c.check(near(cd.get_electrostatic_potential_energy(), m.energy(n)), "system energy",
                what + ": " + std::to_string(cd.get_electrostatic_potential_energy()) + " expected " + std::to_string(m.energy(n)) + " for " + sidb::str(n));
    if (validity)
        if (const auto v = m.valid(n); v != sidb::verdict::borderline)
            c.check(cd.is_physically_valid() == (v == sidb::verdict::valid), v == sidb::verdict::valid ? "valid configuration rejected" : "invalid configuration accepted",
                    what + " charges " + sidb::str(n));
}
static uint64_t index_of(const std::vector<int>& n, int base)
{
    uint64_t r = 0;
    for (int x : n) r = r * base + static_cast<uint64_t>(x + 1);
    return r;
}

// ---------------------------------------------------------------- charges, potentials, defects: histories
template <class L> static void histories(mc::ctx& c, const std::vector<sidb::pos>& shape)
{
    using CD = charge_distribution_surface<L>;
    sidb::model m;
    m.s   = ordered<L>(shape);
    m.ext = std::vector<double>(m.s.size(), 0.0);
    const int ph0 = c.choose(2);
    int       base = c.flip() ? 3 : 2;
    m.p = PH[ph0];
    const int init = -1 + c.choose(base);
    const L   lyt = layout<L>(m.s);
    CD        cd{lyt, params(m.p, base), cs(init)};
    std::vector<int> n(m.s.size(), init);
    const sidb::pos D[2] = {{4, 1, 0}, {3, 2, 1}};
    std::map<int, double> ext_at;  // external potential registered for a defect position
    std::string log = "init " + sidb::str(n) + " base " + std::to_string(base);
    bool stale = false;  // charges changed since the potentials were last updated
    const int depth = c.thorough ? 5 : 4;
    compare(c, cd, m, n, true, true, true, log);
    const auto ext_of = [&](int k) { return ext_at.count(k) ? ext_at[k] : 0.0; };
    const auto put = [&](int k, int q, double eps, double lam)
    {
        for (auto& x : m.d)
            if (x.p == D[k]) { x = {D[k], q, eps, lam, ext_of(k)}; return; }
        m.d.push_back({D[k], q, eps, lam, ext_of(k)});
    };
    for (int d = 0; d < depth; ++d)
    {
        std::vector<std::pair<std::string, std::function<void()>>> ops;
        for (size_t i = 0; i < n.size() && i < 2; ++i)
            for (int q = -1; q <= base - 2; ++q)
            {
                if (i == 0) ops.push_back({"assign " + std::to_string(i) + ":=" + std::to_string(q), [&, i, q] { cd.assign_charge_state(at<L>(m.s[i]), cs(q)); stale |= n[i] != q; n[i] = q; }});
                else ops.push_back({"assign index " + std::to_string(i) + ":=" + std::to_string(q), [&, i, q] { cd.assign_charge_state_by_index(i, cs(q)); stale |= n[i] != q; n[i] = q; }});
            }
        ops.push_back({"assign elsewhere", [&] { cd.assign_charge_state(at<L>(D[0]), S::NEGATIVE); }});
        for (int q = -1; q <= base - 2; ++q)
            ops.push_back({"all " + std::to_string(q), [&, q] { cd.assign_all_charge_states(cs(q)); stale = true; n.assign(n.size(), q); }});
        ops.push_back({"update", [&] { cd.update_after_charge_change(); stale = false; }});
        ops.push_back({"increase", [&]
                       {
                           const auto before = index_of(n, base);
                           cd.increase_charge_index_by_one();
                           if (before + 1 < static_cast<uint64_t>(std::pow(base, n.size()) + 0.5))
                           {
                               uint64_t r = before + 1;
                               for (size_t i = n.size(); i-- > 0;) n[i] = static_cast<int>(r % base) - 1, r /= base;
                               stale = false;
                           }
                       }});
        ops.push_back({"global +0.1", [&] { cd.assign_global_external_potential(0.1); for (auto& x : m.ext) x += 0.1; }});
        ops.push_back({"local dot 0 -0.4", [&] { cd.assign_local_external_potential({{at<L>(m.s[0]), -0.4}}); m.ext[0] -= 0.4; }});
        ops.push_back({"local defect position 0.2", [&] { cd.assign_local_external_potential({{at<L>(D[0]), 0.2}}); ext_at[0] += 0.2; for (auto& x : m.d) if (x.p == D[0]) x.ext = ext_at[0]; }});
        ops.push_back({"reset external", [&] { cd.reset_local_external_potentials(); m.ext.assign(n.size(), 0.0); ext_at.clear(); for (auto& x : m.d) x.ext = 0; }});
        for (int k = 0; k < 2; ++k)
        {
            ops.push_back({"defect - at " + std::to_string(k), [&, k] { cd.add_sidb_defect_to_potential_landscape(at<L>(D[k]), sidb_defect{sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}); put(k, -1, 10.6, 5.9); }});
            if (k == 0) ops.push_back({"defect + at " + std::to_string(k), [&, k] { cd.add_sidb_defect_to_potential_landscape(at<L>(D[k]), sidb_defect{sidb_defect_type::ARSENIC, 1, 9.7, 2.1}); put(k, 1, 9.7, 2.1); }});
            ops.push_back({"erase defect " + std::to_string(k), [&, k] { cd.erase_defect(at<L>(D[k])); std::erase_if(m.d, [&](const auto& x) { return x.p == D[k]; }); }});
        }
        ops.push_back({"defect on a dot, neutral defect", [&] { cd.add_sidb_defect_to_potential_landscape(at<L>(m.s[0]), sidb_defect{sidb_defect_type::DB, -1, 5.6, 5.0}); cd.add_sidb_defect_to_potential_landscape(at<L>(D[0]), sidb_defect{sidb_defect_type::SILOXANE}); }});
        for (int k = 0; k < 3; ++k)
            if (!(PH[k].mu == m.p.mu)) ops.push_back({"parameters " + std::to_string(k), [&, k] { m.p = PH[k]; cd.assign_physical_parameters(params(m.p, base)); stale = false; }});
        if (std::find(n.begin(), n.end(), 1) == n.end()) ops.push_back({"parameters with the other base", [&] { base = 5 - base; cd.assign_physical_parameters(params(m.p, base)); stale = false; }});
        if (std::find(n.begin(), n.end(), 1) == n.end()) ops.push_back({"other base", [&] { base = 5 - base; cd.assign_base_number(static_cast<uint8_t>(base)); }});
        const int o = c.choose(static_cast<int>(ops.size()));
        log += "; " + ops[o].first;
        c.note(log);
        ops[o].second();
        c.step();
        if (c.again()) continue;
        compare(c, cd, m, n, !stale, false, false, log);
        const auto ib = cd.get_charge_index_and_base();
        c.check(ib.first == index_of(n, base) && ib.second == base, "charge index", log + ": " + std::to_string(ib.first) + " base " + std::to_string(ib.second) + " for " + sidb::str(n));
        c.check(cd.get_max_charge_index() == static_cast<uint64_t>(std::pow(base, n.size()) + 0.5) - 1, "largest charge index", log);
        // from scratch, on every kind of copy; the original must not notice
        for (int k = 0; k < 4; ++k)
        {
            CD copy = k == 0 ? CD{cd} : k == 1 ? cd.clone() : CD{layout<L>({{9, 9, 0}, {20, 3, 1}})};
            if (k == 2) copy = cd;
            if (k == 3) { CD t{cd}; copy = std::move(t); }
            const std::string w = log + (k == 0 ? " [copy]" : k == 1 ? " [clone]" : k == 2 ? " [assigned]" : " [moved]");
            c.check(copy.num_cells() == n.size(), "copy has another layout", w + " " + std::to_string(copy.num_cells()) + " cells");
            copy.update_after_charge_change();
            compare(c, copy, m, n, true, true, true, w);
            copy.assign_all_charge_states(n[0] == 0 ? S::NEGATIVE : S::NEUTRAL);
            copy.assign_global_external_potential(0.3);
            copy.add_sidb_defect_to_potential_landscape(at<L>({3, 3, 0}), sidb_defect{sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9});
            copy.update_after_charge_change();
        }
        compare(c, cd, m, n, !stale, false, false, log + " [after changing copies]");
        uint64_t h = index_of(n, 3) * 2 + (base - 2);
        h = mc::hash_mix(h, stale ? 1 + (std::hash<double>{}(*cd.get_local_internal_potential_by_index(0))) : 0);
        h = mc::hash_mix(h, static_cast<uint64_t>(m.p.mu * -100 + 0.5));
        for (double x : m.ext) h = mc::hash_mix(h, static_cast<uint64_t>((x + 10) * 100 + 0.5));
        h = mc::hash_mix(h, static_cast<uint64_t>((ext_of(0) + 10) * 100 + 0.5));
        for (int k = 0; k < 2; ++k)
        {
            int q = 0;
            for (const auto& x : m.d) if (x.p == D[k]) q = x.q;
            h = mc::hash_mix(h, static_cast<uint64_t>(q + 2));
        }
        h = mc::hash_mix(h, ext_at.count(0));
        if (!c.fresh(h) && d + 1 < depth) c.prune();
    }
}
static const char* HB = "parameter sets, base and initial charge; histories of 4 (thorough 5) operations: charge assignment, index increment, update, global/local external potentials (also at defect positions), reset, adding/replacing/erasing defects, parameter and base changes; copy, clone, assignment and move after every step";
MC_MODEL(history_two, HB, 2) { histories<plain>(c, shapes()[2]); }
MC_MODEL(history_close, HB, 2) { histories<offs>(c, shapes()[1]); }
MC_MODEL(history_three, HB, 2) { histories<cubel>(c, shapes()[3]); }

// ---------------------------------------------------------------- every charge configuration
MC_MODEL(configurations, "dot sets of 1-4 dots (incl. touching dots) x 3 parameter sets x both bases x global potential {0,+-0.3} x local potential {none, +-0.35 on one dot} x defects {none, -, +, both}: all charge assignments", 6)
{
    sidb::model m;
    m.s = ordered<plain>(shapes()[c.choose(6)]);
    m.p = PH[c.choose(3)];
    const int    base = 2 + c.choose(2);
    const double g    = 0.3 * (c.choose(3) - 1);
    const double l    = 0.35 * (c.choose(3) - 1);
    const int    at_  = l == 0.0 ? 0 : c.choose(static_cast<int>(m.s.size()));
    const int    df   = c.choose(4);
    m.ext.assign(m.s.size(), g);
    m.ext[at_] += l;
    charge_distribution_surface<plain> cd{layout<plain>(m.s), params(m.p, base)};
    cd.assign_global_external_potential(g);
    if (l != 0.0) cd.assign_local_external_potential({{at<plain>(m.s[at_]), l}});
    if (df & 1) cd.add_sidb_defect_to_potential_landscape({4, 1, 0}, sidb_defect{sidb_defect_type::SI_VACANCY, -1, m.p.eps, m.p.lam}), m.d.push_back({{4, 1, 0}, -1, m.p.eps, m.p.lam});
    if (df & 2) cd.add_sidb_defect_to_potential_landscape({-3, 0, 1}, sidb_defect{sidb_defect_type::ARSENIC, 1, 9.7, 2.1}), m.d.push_back({{-3, 0, 1}, 1, 9.7, 2.1});
    m.all(base, [&](const std::vector<int>& n)
          {
              const std::string what = "g " + std::to_string(g) + " l " + std::to_string(l) + " at " + std::to_string(at_) + " defects " + std::to_string(df) + " mu " + std::to_string(m.p.mu);
              c.step();
              for (size_t i = 0; i < n.size(); ++i) cd.assign_charge_state_by_index(i, cs(n[i]), i % 2 ? charge_index_mode::KEEP_CHARGE_INDEX : charge_index_mode::UPDATE_CHARGE_INDEX);
              cd.update_after_charge_change();
              compare(c, cd, m, n, true, true, true, what);
              const auto stab = m.configuration(n);
              if (stab != sidb::verdict::borderline)
                  c.check(cd.is_configuration_stable() == (stab == sidb::verdict::valid), "configuration stability", what + " charges " + sidb::str(n));
              const auto k = index_of(n, base);
              cd.charge_distribution_to_index();
              c.check(cd.get_charge_index_and_base() == std::pair<uint64_t, uint8_t>{k, static_cast<uint8_t>(base)}, "index of a distribution", what);
              cd.charge_distribution_to_index_general();
              c.check(cd.get_charge_index_and_base().first == k, "general index of a distribution", what);
              cd.assign_all_charge_states(S::NEUTRAL);
              cd.assign_charge_index(k);
              cd.update_after_charge_change();
              compare(c, cd, m, n, true, true, true, what + " (assigned by index)");
          });
}

// ---------------------------------------------------------------- defects of the surface
MC_MODEL(defect_surfaces, "defect surfaces of 2-3 dots with up to two defects of 4 kinds (charged, neutral, on top of a dot): potentials, energy and validity of all charge assignments", 4)
{
    struct kind { sidb_defect_type t; int q; double eps, lam; };
    const kind K[] = {{sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}, {sidb_defect_type::ARSENIC, 1, 9.7, 2.1}, {sidb_defect_type::SILOXANE, 0, 0, 0}, {sidb_defect_type::DB, -1, 5.6, 5.0}};
    const sidb::pos W[] = {{4, 1, 0}, {1, 1, 1}, {0, 0, 0}};
    sidb::model m;
    const int a = c.choose(4), wa = c.choose(3), b = c.choose(5), wb = b == 4 ? 0 : c.choose(3);
    m.s = ordered<defl>(shapes()[2 + c.choose(3)]);
    m.p = PH[c.choose(2)];
    m.ext.assign(m.s.size(), 0.0);
    defl l = layout<defl>(m.s);
    const auto put = [&](int k, int w)
    {
        l.assign_sidb_defect(at<defl>(W[w]), sidb_defect{K[k].t, K[k].q, K[k].eps, K[k].lam});
        std::erase_if(m.d, [&](const auto& x) { return x.p == W[w]; });
        if (K[k].q != 0 && std::find(m.s.begin(), m.s.end(), W[w]) == m.s.end()) m.d.push_back({W[w], K[k].q, K[k].eps, K[k].lam});
    };
    put(a, wa);
    if (b < 4) put(b, wb);
    charge_distribution_surface<defl> cd{l, params(m.p, 3)};
    m.all(3, [&](const std::vector<int>& n)
          {
              c.step();
              cd.assign_charge_index(index_of(n, 3));
              cd.update_after_charge_change();
              compare(c, cd, m, n, true, true, true, "defects " + std::to_string(a) + "@" + std::to_string(wa) + " " + std::to_string(b) + "@" + std::to_string(wb));
              charge_distribution_surface<defl> copy{cd};
              compare(c, copy, m, n, true, true, true, "copy");
          });
}

// ---------------------------------------------------------------- dependent cells and incremental enumeration
static int dependent_charge(const sidb::model& m, size_t i, const std::vector<int>& n, int base)
{
    const double V = m.pot_int(i, n) + m.ext[i];
    if (std::abs(V - m.p.mu) < 2e-6 || std::abs(V - m.p.mu_plus()) < 2e-6) return 9;
    return V > m.p.mu ? -1 : V < m.p.mu_plus() ? (base == 3 ? 1 : 8) : 0;
}
MC_MODEL(gray_code, "2-4 dots x parameters x every dependent dot x potential {none, +-0.35}: all one-bit steps of two Gray codes, forwards and backwards, with incremental potentials", 5)
{
    sidb::model m;
    m.s = ordered<plain>(shapes()[1 + c.choose(5)]);
    m.p = PH[c.choose(3)];
    const double g = 0.35 * (c.choose(3) - 1);
    const size_t dep = static_cast<size_t>(c.choose(static_cast<int>(m.s.size())));
    const bool variable = c.flip(), df = c.flip();
    m.ext.assign(m.s.size(), g);
    charge_distribution_surface<plain> cd{layout<plain>(m.s), params(m.p, 2)};
    cd.assign_dependent_cell(at<plain>(m.s[dep]));
    cd.assign_base_number(2);
    cd.assign_global_external_potential(g);
    if (df) cd.add_sidb_defect_to_potential_landscape({4, 1, 0}, sidb_defect{sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}), m.d.push_back({{4, 1, 0}, -1, 10.6, 5.9});
    cd.assign_all_charge_states(S::NEUTRAL);
    cd.update_after_charge_change();
    const uint64_t N = uint64_t{1} << (m.s.size() - 1);
    c.check(cd.get_max_charge_index() == N - 1, "largest index with a dependent dot", "");
    std::vector<int> n(m.s.size(), 0);
    uint64_t prev = 0;
    std::vector<uint64_t> seq;
    for (uint64_t k = 0; k < N; ++k) seq.push_back(k ^ (k >> 1));
    for (uint64_t k = N; k-- > 0;) seq.push_back(k ^ (k >> 1));
    for (uint64_t gcode : seq)
    {
        c.step();
        cd.assign_charge_index_by_gray_code(gcode, prev, variable ? dependent_cell_mode::VARIABLE : dependent_cell_mode::FIXED, energy_calculation::UPDATE_ENERGY, charge_distribution_history::CONSIDER);
        prev = gcode;
        for (size_t b = 0, i = 0; i < n.size(); ++i)
            if (i != dep) n[i] = -static_cast<int>((gcode >> b++) & 1);
        if (variable)
        {
            const int q = dependent_charge(m, dep, n, 2);
            if (q == 9) return;
            if (q == 8)
            {
                n[dep] = sg(cd.get_charge_state_by_index(dep));  // cannot be charged positively in base 2: any, but reported invalid
                c.check(n[dep] != 1 && !cd.is_physically_valid(), "positive dependent dot in base 2", "");
            }
            else n[dep] = q;
        }
        compare(c, cd, m, n, true, true, true, "gray " + std::to_string(gcode) + " dependent " + std::to_string(dep) + (variable ? " variable" : " fixed"));
    }
}
MC_MODEL(dependent_dot, "2-4 dots x parameters x both bases x every dependent dot x every starting charge assignment: index of the others, dependent dot adapted on update, energy and validity", 5)
{
    sidb::model m;
    m.s = ordered<plain>(shapes()[1 + c.choose(5)]);
    m.p = PH[c.choose(3)];
    const int    base = 2 + c.choose(2);
    const size_t dep  = static_cast<size_t>(c.choose(static_cast<int>(m.s.size())));
    const double g    = 0.35 * (c.choose(3) - 1);
    m.ext.assign(m.s.size(), g);
    charge_distribution_surface<plain> cd{layout<plain>(m.s), params(m.p, base)};
    cd.assign_dependent_cell(at<plain>(m.s[dep]));
    cd.assign_global_external_potential(g);
    if (c.flip()) cd.assign_physical_parameters(params(m.p, base));
    c.check(cd.get_max_charge_index() == static_cast<uint64_t>(std::pow(base, m.s.size() - 1) + 0.5) - 1, "largest index with a dependent dot", std::to_string(cd.get_max_charge_index()));
    m.all(base, [&](const std::vector<int>& start)
          {
              auto n = start;
              c.step();
              for (size_t i = 0; i < n.size(); ++i) cd.assign_charge_state_by_index(i, cs(n[i]));
              auto rest = n;
              rest.erase(rest.begin() + static_cast<long>(dep));
              c.check(cd.get_charge_index_and_base().first == index_of(rest, base), "index without the dependent dot", sidb::str(n));
              cd.update_after_charge_change(dependent_cell_mode::VARIABLE);
              const int q = dependent_charge(m, dep, n, base);
              if (q == 9) return;
              if (q == 8) n[dep] = sg(cd.get_charge_state_by_index(dep));
              else n[dep] = q;
              compare(c, cd, m, n, true, true, true, "dependent " + std::to_string(dep) + " start " + sidb::str(start));
              cd.assign_charge_index(index_of(rest, base));
              auto nn = n;
              for (size_t i = 0; i < n.size(); ++i) nn[i] = sg(cd.get_charge_state_by_index(i));
              auto r2 = nn;
              r2.erase(r2.begin() + static_cast<long>(dep));
              c.check(r2 == rest, "charges of an index without the dependent dot", sidb::str(start) + " became " + sidb::str(nn));
          });
    // the whole enumeration
    cd.assign_all_charge_states(S::NEGATIVE);
    cd.update_after_charge_change();
    std::set<std::vector<int>> seen;
    for (uint64_t k = 0;; ++k)
    {
        std::vector<int> r;
        for (size_t i = 0; i < m.s.size(); ++i)
            if (i != dep) r.push_back(sg(cd.get_charge_state_by_index(i)));
        seen.insert(r);
        c.check(cd.get_charge_index_and_base().first == k && index_of(r, base) == k, "enumeration index", std::to_string(k));
        if (k >= cd.get_max_charge_index()) break;
        cd.increase_charge_index_by_one(dependent_cell_mode::VARIABLE);
    }
    c.check(seen.size() == static_cast<size_t>(std::pow(base, m.s.size() - 1) + 0.5), "enumeration misses assignments", "");
}
