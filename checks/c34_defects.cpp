// C34: exact simulators in the presence of charged and neutral defects.
#define MC_NO_MAIN
#include "c34.hpp"
MC_MODEL(defects, "all sets of 1-3 (thorough 1-4) dots out of 6 sites x 2 parameter sets x 2 external settings x one or two defects of {negative, positive, neutral} at 3 places (one possibly on a dot)", 6)
{
    struct kind { sidb_defect_type t; int q; double eps, lam; };
    const kind K[] = {{sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9}, {sidb_defect_type::ARSENIC, 1, 9.7, 2.1}, {sidb_defect_type::SILOXANE, 0, 0, 0}};
    const sidb::pos W[] = {{4, 0, 1}, {1, 1, 1}, {0, 0, 0}};
    sidb::model m;
    m.s = sidb::ordered<defl>(pick(c, 6, c.thorough ? 4 : 3));
    m.p = PH[c.choose(2)];
    env e;
    m.ext.assign(m.s.size(), 0.0);
    if (c.flip())
    {
        e.global = -0.2;
        for (auto& x : m.ext) x += e.global;
    }
    const int a = c.choose(3), wa = c.choose(3), b = c.choose(4), wb = b == 3 ? 0 : c.choose(3);
    defl l = sidb::layout<defl>(m.s);
    const auto put = [&](int k, int w)
    {
        l.assign_sidb_defect(at<defl>(W[w]), sidb_defect{K[k].t, K[k].q, K[k].eps, K[k].lam});
        std::erase_if(m.d, [&](const auto& x) { return x.p == W[w]; });
        if (K[k].q != 0 && std::find(m.s.begin(), m.s.end(), W[w]) == m.s.end()) m.d.push_back({W[w], K[k].q, K[k].eps, K[k].lam});
    };
    put(a, wa);
    if (b < 3) put(b, wb);
    all_engines(c, l, m, e, name(m));
    size_t nd = 0;
    l.foreach_sidb_defect([&](const auto&) { ++nd; });
    c.check(nd == (b < 3 && wb != wa ? 2u : 1u), "simulation changed the defects", name(m));
}
