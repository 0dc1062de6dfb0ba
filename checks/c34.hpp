#pragma once
// C34: exact SiDB simulators against direct enumeration of all charge assignments.
#include "sidbfic.hpp"
#define FICTION_ALGLIB_ENABLED 1
#include <fiction/algorithms/simulation/sidb/clustercomplete.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>

using namespace fiction;
using sidb::at;
using plain = sidb_100_cell_clk_lyt_siqad;
using offs  = sidb_cell_clk_lyt;
using cubel = sidb_100_cell_clk_lyt_cube;
using defl  = sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>;

static const sidb::pos  SITE[] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {2, 0, 1}, {3, 1, 0}, {5, 0, 0}, {8, 1, 1}, {13, 0, 0}};
static const sidb::phys PH[]   = {{-0.32, 5.6, 5.0}, {-0.1, 4.1, 3.0}, {-0.25, 6.5, 7.0}, {0.05, 5.6, 5.0}};

static std::vector<sidb::pos> pick(mc::ctx& c, int sites, int most)
{
    std::vector<sidb::pos> v;
    const int first = c.choose(sites);
    v.push_back(SITE[first]);
    for (int last = first; static_cast<int>(v.size()) < most && last + 1 < sites;)
    {
        const int k = c.choose(sites - last);  // 0: stop
        if (k == 0) break;
        last += k;
        v.push_back(SITE[last]);
    }
    return v;
}
static std::string name(const sidb::model& m)
{
    std::string s;
    for (const auto& p : m.s) s += sidb::str(p);
    s += " mu " + std::to_string(m.p.mu) + " eps " + std::to_string(m.p.eps);
    for (size_t i = 0; i < m.s.size(); ++i)
        if (m.ext[i] != 0) s += " ext" + std::to_string(i) + "=" + std::to_string(m.ext[i]);
    for (const auto& d : m.d) s += " defect " + std::to_string(d.q) + "@" + sidb::str(d.p);
    return s;
}
template <class L> static void unchanged(mc::ctx& c, const L& l, const sidb::model& m, const std::string& what)
{
    c.check(l.num_cells() == m.s.size(), "simulation changed the layout", what);
    for (const auto& p : m.s) c.check(l.get_cell_type(at<L>(p)) == sidb_technology::cell_type::NORMAL, "simulation changed the layout", what);
}
struct env
{
    double global = 0;
    int    dot    = -1;
    double local  = 0;
};
static env environment(mc::ctx& c, sidb::model& m)
{
    env e;
    const int k = c.choose(c.thorough ? 9 : 7);
    m.ext.assign(m.s.size(), 0.0);
    if (k == 1) e.global = 0.25;
    if (k == 2) e.global = -0.3;
    if (k == 3 || k == 4) e.dot = 0, e.local = k == 3 ? 0.4 : -0.5;
    if (k == 5) e.dot = static_cast<int>(m.s.size()) - 1, e.local = -0.35;
    if (k == 6) e.dot = static_cast<int>(m.s.size()) - 1, e.local = 0.3, e.global = -0.2;
    if (k == 7) e.global = -1;
    if (k == 8) e.dot = static_cast<int>(m.s.size()) / 2, e.local = -0.8, e.global = 0.1;
    for (auto& x : m.ext) x += e.global;
    if (e.dot >= 0) m.ext[e.dot] += e.local;
    return e;
}
template <class L> static quickexact_params<cell<L>> qe(const sidb::model& m, const env& e, int base, bool automatic)
{
    quickexact_params<cell<L>> p;
    p.simulation_parameters = sidb::params(m.p, base);
    p.base_number_detection = automatic ? quickexact_params<cell<L>>::automatic_base_number_detection::ON : quickexact_params<cell<L>>::automatic_base_number_detection::OFF;
    p.global_potential      = e.global;
    if (e.dot >= 0) p.local_external_potential[at<L>(m.s[e.dot])] = e.local;
    return p;
}
template <class L> static clustercomplete_params<cell<L>> cc(const sidb::model& m, const env& e, int base, uint64_t part, uint64_t overlap)
{
    clustercomplete_params<cell<L>> p;
    p.simulation_parameters = sidb::params(m.p, base);
    p.global_potential      = e.global;
    p.available_threads     = 1;
    p.validity_witness_partitioning_max_cluster_size_gss = part;
    p.num_overlapping_witnesses_limit_gss                = overlap;
    if (e.dot >= 0) p.local_external_potential[at<L>(m.s[e.dot])] = e.local;
    return p;
}
template <class L> static void all_engines(mc::ctx& c, const L& l, const sidb::model& m, const env& e, const std::string& what)
{
    const auto two = sidb::solve(m, 2), three = sidb::solve(m, 3);
    c.state(mc::hash_str(what));
    for (int base = 2; base <= 3; ++base)
    {
        const auto& sp = base == 2 ? two : three;
        const std::string b = " base " + std::to_string(base) + " " + what;
        if (e.global == 0 && e.dot < 0)
        {
            c.step();
            sidb::check_result(c, m, sp, exhaustive_ground_state_simulation(l, sidb::params(m.p, base)), "exhaustive" + b);
        }
        c.step(3);
        sidb::check_result(c, m, sp, quickexact(l, qe<L>(m, e, base, false)), "quickexact" + b);
        sidb::check_result(c, m, three, quickexact(l, qe<L>(m, e, base, true)), "quickexact (automatic)" + b);
        sidb::check_result(c, m, sp, clustercomplete(l, cc<L>(m, e, base, 6, 6)), "clustercomplete" + b);
        if (m.s.size() > 1) sidb::check_result(c, m, sp, clustercomplete(l, cc<L>(m, e, base, base == 2 ? 0 : 9, base == 2 ? 9 : 0)), "clustercomplete (limits)" + b);
    }
    unchanged(c, l, m, what);
}
