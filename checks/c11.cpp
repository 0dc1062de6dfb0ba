// C11: charge states, defects, simulation parameters.
#include "mc.hpp"
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>
#include <fiction/technology/constants.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>
#include <cmath>

using namespace fiction;
using cst = sidb_charge_state;

MC_MODEL(signs, "all 256 signs and all 4 charge states", 1)
{
    const int s = c.range(-128, 127);
    const auto st = sign_to_charge_state(static_cast<int8_t>(s));
    c.step(2);
    if (s >= -1 && s <= 1)
    {
        c.check(st == (s < 0 ? cst::NEGATIVE : s > 0 ? cst::POSITIVE : cst::NEUTRAL), "state of sign " + std::to_string(s));
        c.check(charge_state_to_sign(st) == s, "round trip of sign " + std::to_string(s));
    }
    else
    {
        c.check(st == cst::NONE, "sign out of range gives a valid state: " + std::to_string(s));
    }
    c.check(charge_state_to_sign(cst::NONE) == 0, "an empty position carries a charge");
    c.state(static_cast<uint64_t>(s + 1000));
}
MC_MODEL(strings, "all configurations of up to 7 (thorough 9) SiDBs over the four states", 4)
{
    static const std::vector<cst> all{cst::NEGATIVE, cst::NEUTRAL, cst::POSITIVE, cst::NONE};
    const int n = c.choose(c.thorough ? 10 : 8);
    std::vector<cst> v;
    std::string want;
    for (int i = 0; i < n; ++i)
    {
        v.push_back(c.pick(all));
        if (v.back() == cst::NEGATIVE) want += '-'; else if (v.back() == cst::NEUTRAL) want += '0'; else if (v.back() == cst::POSITIVE) want += '+';
    }
    const auto got = charge_configuration_to_string(v);
    c.step();
    c.check(got == want, "string of " + want, got);
    c.state(want);
    c.sample(want);
}
MC_MODEL(bases, "both bases", 1)
{
    const auto b2 = sidb_charge_states_for_base_number(2), b3 = sidb_charge_states_for_base_number(3);
    c.step(2);
    c.check(b2 == std::vector<cst>{cst::NEGATIVE, cst::NEUTRAL}, "states of base 2");
    c.check(b3 == std::vector<cst>{cst::NEGATIVE, cst::NEUTRAL, cst::POSITIVE}, "states of base 3");
    c.state(1);
}
MC_MODEL(defects, "all 15 defect types x charges -3..3 x overwrites of the spacing", 1)
{
    const auto t = static_cast<sidb_defect_type>(c.choose(15));
    const int q = c.range(-3, 3), ov = c.choose(4);
    const sidb_defect d{t, q, 5.6, 5.0};
    const std::string what = "type " + std::to_string(static_cast<int>(t)) + " charge " + std::to_string(q) + " overwrite " + std::to_string(ov);
    c.step(6);
    const bool inherently = t == sidb_defect_type::DB || t == sidb_defect_type::SI_VACANCY || t == sidb_defect_type::ARSENIC;
    const bool charged = q != 0 || inherently;
    const bool neutral = !charged && t != sidb_defect_type::NONE;
    c.check(is_charged_defect_type(d) == charged, "charged class, " + what);
    c.check(is_neutral_defect_type(d) == neutral, "neutral class, " + what);
    c.check(!(is_charged_defect_type(d) && is_neutral_defect_type(d)), "both classes, " + what);
    c.check(is_positively_charged_defect(d) == (q > 0) && is_negatively_charged_defect(d) == (q < 0) && is_neutrally_charged_defect(d) == (q == 0), "sign of charge, " + what);
    using sp = std::optional<std::pair<uint16_t, uint16_t>>;
    const sp co = (ov & 1) ? sp{{7, 9}} : std::nullopt, no = (ov & 2) ? sp{{3, 2}} : std::nullopt;
    const auto e = defect_extent(d, co, no);
    const std::pair<uint16_t, uint16_t> want = charged ? (co ? *co : std::pair<uint16_t, uint16_t>{26, 13}) : neutral ? (no ? *no : std::pair<uint16_t, uint16_t>{1, 0}) : std::pair<uint16_t, uint16_t>{0, 0};
    c.check(e == want, "extent, " + what, std::to_string(e.first) + "," + std::to_string(e.second));
    c.check(d.type == t && d.charge == q && d.epsilon_r == 5.6 && d.lambda_tf == 5.0, "fields, " + what);
    c.state(what);
}
MC_MODEL(equality, "all pairs of defects over 3 types x 3 charges x 3 permittivities x 3 screening distances", 3)
{
    static const std::vector<sidb_defect_type> ts{sidb_defect_type::DB, sidb_defect_type::UNKNOWN, sidb_defect_type::GUNK};
    static const std::vector<double> es{0.0, 4.1, 4.1000001};
    const auto mk = [&](int& id) { const int a = c.choose(3), q = c.range(-1, 1), e = c.choose(3), l = c.choose(3); id = ((a * 3 + q + 1) * 3 + e) * 3 + l; return sidb_defect{ts[a], q, es[e], es[l]}; };
    int i = 0, j = 0;
    const auto x = mk(i);
    const auto y = mk(j);
    c.step(2);
    c.check((x == y) == (i == j) && (x != y) == (i != j), "defect equality " + std::to_string(i) + " " + std::to_string(j));
    c.state(mc::hash_mix(i, j));
}
MC_MODEL(parameters, "all combinations over 2 bases x 5 chemical potentials x 5 permittivities x 5 screening distances", 1)
{
    const uint8_t b = c.flip() ? 2 : 3;
    static const std::vector<double> mus{-0.32, -0.28, -0.1, 0.0, 0.2}, eps{1.0, 4.1, 5.6, 9.7, 11.7}, lam{0.5, 1.8, 5.0, 5.5, 12.0};
    const double mu = c.pick(mus), e = c.pick(eps), l = c.pick(lam);
    const sidb_simulation_parameters p{b, mu, e, l};
    c.step(3);
    c.check(p.base == b && p.mu_minus == mu && p.epsilon_r == e && p.lambda_tf == l, "parameters are not the given ones");
    c.check(std::abs(p.mu_plus() - (mu - 0.59)) < 1e-12, "transition level of the positive state");
    c.check(std::abs(p.k() - 8.987552e9 / e) < 1e-3, "Coulomb constant over permittivity");
    auto q = p;
    q.mu_minus = -0.25;
    q.epsilon_r = 2.0;
    c.check(std::abs(q.mu_plus() + 0.84) < 1e-12 && std::abs(q.k() - 8.987552e9 / 2) < 1e-3, "derived quantities do not follow an update");
    const sidb_simulation_parameters d{};
    c.check(d.base == 3 && d.mu_minus == -0.32 && d.epsilon_r == 5.6 && d.lambda_tf == 5.0, "documented defaults");
    c.state(mc::hash_mix(b, mc::hash_str(std::to_string(mu) + std::to_string(e) + std::to_string(l))));
    c.sample(std::to_string(mu) + " " + std::to_string(e) + " " + std::to_string(l));
}
MC_MODEL(lattices, "both lattice orientations", 1)
{
    c.step(2);
    c.check(sidb_100_lattice::LAT_A == 3.84 && sidb_100_lattice::LAT_B == 7.68 && sidb_100_lattice::LAT_C == std::pair<double, double>{0, 2.25}, "100 lattice");
    c.check(sidb_111_lattice::LAT_A == 6.65 && sidb_111_lattice::LAT_B == 3.84 && sidb_111_lattice::LAT_C == std::pair<double, double>{3.3255, 1.92}, "111 lattice");
    c.check(std::abs(constants::physical::K_E * 4 * 3.14159265358979 * constants::physical::EPSILON - 1) < 1e-5, "Coulomb constant and permittivity disagree");
    c.state(1);
}
