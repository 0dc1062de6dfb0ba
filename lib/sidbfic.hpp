// Glue between the independent electrostatics (sidb.hpp) and fiction's types.
#ifndef VERIF_SIDBFIC_HPP
#define VERIF_SIDBFIC_HPP
#include "mc.hpp"
#include "sidb.hpp"
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/types.hpp>
#include <map>

namespace sidb
{
template <class L> fiction::cell<L> at(const pos& p)
{
    if constexpr (fiction::has_siqad_coord_v<L>) return {p.n, p.m, p.l};
    else return fiction::cell<L>{p.n, 2 * p.m + p.l};
}
inline fiction::sidb_charge_state cs(int q)
{
    return q < 0 ? fiction::sidb_charge_state::NEGATIVE : q > 0 ? fiction::sidb_charge_state::POSITIVE : fiction::sidb_charge_state::NEUTRAL;
}
inline int sg(fiction::sidb_charge_state s)
{
    return s == fiction::sidb_charge_state::NEGATIVE ? -1 : s == fiction::sidb_charge_state::POSITIVE ? 1 : s == fiction::sidb_charge_state::NEUTRAL ? 0 : 9;
}
inline bool near(double a, double b, double tol = 1e-9) { return std::abs(a - b) <= tol * std::max(1.0, std::abs(b)); }
template <class L> L layout(const std::vector<pos>& v)
{
    L l{};
    for (const auto& p : v) l.assign_cell_type(at<L>(p), fiction::sidb_technology::cell_type::NORMAL);
    return l;
}
inline fiction::sidb_simulation_parameters params(const phys& p, int base)
{
    return fiction::sidb_simulation_parameters{static_cast<uint8_t>(base), p.mu, p.eps, p.lam};
}
// dots in the order surfaces store them
template <class L> std::vector<pos> ordered(std::vector<pos> v)
{
    std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return at<L>(a) < at<L>(b); });
    return v;
}
inline uint64_t index_of(const std::vector<int>& n, int base)
{
    uint64_t r = 0;
    for (int x : n) r = r * static_cast<uint64_t>(base) + static_cast<uint64_t>(x + 1);
    return r;
}
// valid assignments of m: certain ones and those too close to a threshold to call
struct spectrum
{
    std::map<std::vector<int>, double> sure;
    std::set<std::vector<int>>         maybe;
};
inline spectrum solve(const model& m, int base)
{
    spectrum r;
    m.all(base, [&](const std::vector<int>& n)
          {
              const auto v = m.valid(n);
              if (v == verdict::valid) r.sure[n] = m.energy(n);
              else if (v == verdict::borderline) r.maybe.insert(n);
          });
    return r;
}
template <class CD> std::vector<int> charges(const model& m, const CD& cd)
{
    std::vector<int> n;
    for (const auto& p : m.s) n.push_back(sg(cd.get_charge_state(at<CD>(p))));
    return n;
}
// complete: the result must contain every valid assignment; unique: each once
template <class Result> void check_result(mc::ctx& c, const model& m, const spectrum& sp, const Result& res, const std::string& what, bool complete = true, bool unique = true)
{
    std::map<std::vector<int>, int> got;
    double least = 1e300;
    for (const auto& cd : res.charge_distributions)
    {
        const auto n = charges(m, cd);
        c.check(cd.num_cells() == m.s.size(), "result over another layout", what);
        c.check(sp.sure.count(n) || sp.maybe.count(n), "invalid configuration returned", what + ": " + str(n));
        c.check(cd.is_physically_valid(), "returned configuration not marked valid", what + ": " + str(n));
        c.check(near(cd.get_electrostatic_potential_energy(), m.energy(n), 1e-7), "energy of a returned configuration",
                what + ": " + str(n) + " " + std::to_string(cd.get_electrostatic_potential_energy()) + " expected " + std::to_string(m.energy(n)));
        if (++got[n] > 1 && unique) c.fail("configuration returned twice", what + ": " + str(n));
        least = std::min(least, m.energy(n));
    }
    if (!complete) return;
    for (const auto& [n, e] : sp.sure) c.check(got.count(n), "valid configuration missing", what + ": " + str(n) + " of " + std::to_string(sp.sure.size()));
    if (sp.maybe.empty())
    {
        std::set<std::vector<int>> ground;
        const auto gs = res.groundstates();
        for (const auto& cd : gs) c.check(ground.insert(charges(m, cd)).second, "ground state reported twice", what);
        for (const auto& [n, e] : sp.sure)
        {
            if (e - least < 0.5e-6) c.check(ground.count(n), "ground state missing", what + ": " + str(n));
            if (e - least > 1.5e-6) c.check(!ground.count(n), "wrong ground state", what + ": " + str(n));
        }
    }
}
}  // namespace sidb
#endif
