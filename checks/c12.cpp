// C12: potential-to-distance conversion against its definition.
#include "mc.hpp"
#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <cmath>
#include <map>

using namespace fiction;

static double V(double d_nm, double eps, double lam)  // screened Coulomb potential in volt
{
    return 8.987552e9 * 1.6021766e-19 / (eps * d_nm * 1e-9) * std::exp(-d_nm / lam);
}
static const std::vector<double> EPS{1.0, 2.3, 4.1, 5.6, 8.0, 11.7}, LAM{0.3, 1.0, 2.5, 5.0, 8.0, 12.0};

MC_MODEL(tightest, "6 x 6 parameter sets, precisions 0..3 (thorough 4), 40 potentials from 1e-5 to 20 V", 6)
{
    const double e = c.pick(EPS), l = c.pick(LAM);
    const int    prec = c.choose(c.thorough ? 5 : 4);
    const int    k = c.choose(40);
    const double pot = 1e-5 * std::pow(20.0 / 1e-5, k / 39.0);
    const sidb_simulation_parameters p{static_cast<uint8_t>(2 + k % 2), -0.32 + 0.01 * k, e, l};
    const double d = potential_to_distance_conversion(pot, p, static_cast<uint64_t>(prec));
    const double step = std::pow(10.0, -prec);
    c.step();
    const std::string what = "eps " + std::to_string(e) + " lambda " + std::to_string(l) + " potential " + std::to_string(pot) + " precision " + std::to_string(prec);
    c.check(d > 0.5 * step && std::abs(d / step - std::round(d / step)) < 1e-4, "not a positive multiple of the precision, " + what, std::to_string(d));
    c.check(V(d, e, l) <= pot * (1 + 1e-9), "potential at the distance exceeds the given one, " + what, std::to_string(d));
    if (d > 1.5 * step) c.check(V(d - step, e, l) > pot * (1 - 1e-9), "not the smallest such distance, " + what, std::to_string(d));
    c.state(mc::hash_str(what));
    c.sample(what + " -> " + std::to_string(d));
    if (prec == 2)
    {
        c.check(potential_to_distance_conversion(pot, p) == d, "default precision is not two decimals, " + what);
    }
}
MC_MODEL(monotone, "all neighbouring potentials, permittivities and screening distances of the grid", 6)
{
    const int ei = c.choose(6), li = c.choose(6), prec = c.choose(3), k = c.choose(39);
    const auto pot = [](int i) { return 1e-5 * std::pow(20.0 / 1e-5, i / 39.0); };
    const auto f = [&](int a, int b, int i) { c.step(); return potential_to_distance_conversion(pot(i), sidb_simulation_parameters{2, -0.32, EPS[a], LAM[b]}, static_cast<uint64_t>(prec)); };
    const double d = f(ei, li, k);
    c.check(f(ei, li, k + 1) <= d, "distance grows with the potential");
    if (ei + 1 < 6) c.check(f(ei + 1, li, k) <= d, "distance grows although the interaction weakens (permittivity)");
    if (li + 1 < 6) c.check(f(ei, li + 1, k) >= d, "distance shrinks although the interaction strengthens (screening)");
    c.state(mc::hash_mix(mc::hash_mix(ei, li), mc::hash_mix(prec, k)));
}
// the potential underflows to exactly zero at some distance: there, and not later, the search for potential zero ends
MC_MODEL(vanishing_potential, "6 permittivities x 6 tiny screening distances x precisions 0..3, potential zero: ends where the interaction vanishes", 6)
{
    static const std::vector<double> tiny{1e-5, 1e-4, 1e-3, 0.01, 0.1, 1.0};
    const double e = c.pick(EPS), l = c.pick(tiny);
    const int    prec = c.choose(4);
    const double step = std::pow(10.0, -prec);
    const double d = potential_to_distance_conversion(0.0, sidb_simulation_parameters{2, -0.32, e, l}, static_cast<uint64_t>(prec));
    c.step();
    const std::string what = "eps " + std::to_string(e) + " lambda " + std::to_string(l) + " precision " + std::to_string(prec);
    // e^-745.14 is the smallest positive double; the prefactors shift the exponent by less than 30
    if (step > 780 * l) c.check(std::abs(d - step) < 1e-6, "potential zero: not the smallest distance, " + what, std::to_string(d));
    else c.check(d > 700 * l && d < 780 * l + step, "potential zero: not where the interaction vanishes, " + what, std::to_string(d));
    c.state(mc::hash_str(what));
}
