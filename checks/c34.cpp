// C34: exact SiDB simulators against direct enumeration of all charge assignments.
#include "c34.hpp"
MC_MODEL(potentials, "all sets of 1-4 (thorough 1-5) dots out of 8 sites x 3 (4) parameter sets x 7 (9) external potential settings x bases: exhaustive, quickexact (both detection modes), clustercomplete (two limit settings)", 8)
{
    sidb::model m;
    m.s = sidb::ordered<plain>(pick(c, 8, c.thorough ? 5 : 4));
    m.p = PH[c.choose(c.thorough ? 4 : 3)];
    const env e = environment(c, m);
    all_engines(c, sidb::layout<plain>(m.s), m, e, name(m));
}
static mc::ctx* merge_ctx;
MC_MODEL(hierarchies, "sets of 3-4 (thorough 5) dots x 3 parameter sets x both bases x two witness limits x every possible cluster hierarchy (agglomerative clustering replaced by a free choice of merges)", 4)
{
    const std::vector<std::vector<sidb::pos>> sets{{SITE[0], SITE[2], SITE[5]}, {SITE[0], SITE[1], SITE[3], SITE[5]}, {SITE[0], SITE[3], SITE[4], SITE[7]}, {SITE[1], SITE[2], SITE[4], SITE[6]}, {SITE[0], SITE[2], SITE[3], SITE[5], SITE[6]}};
    sidb::model m;
    const int k = c.choose(c.thorough ? 5 : 4);
    m.s = sidb::ordered<plain>(sets[k]);
    m.p = PH[c.choose(3)];
    const int base = 2 + c.choose(2), lim = c.choose(2);
    env e;
    m.ext.assign(m.s.size(), 0.0);
    if (c.flip()) e.dot = 1, e.local = -0.4, m.ext[1] = -0.4;
    const auto sp = sidb::solve(m, base);
    merge_ctx = &c;
    alglib::verif_choose_merge = [](int n) { return merge_ctx->choose(n); };
    const auto p = cc<plain>(m, e, base, lim ? 6 : 2, lim ? 6 : 1);
    c.step();
    const auto r = clustercomplete(sidb::layout<plain>(m.s), p);
    alglib::verif_choose_merge = nullptr;
    sidb::check_result(c, m, sp, r, "hierarchy, base " + std::to_string(base) + " " + name(m));
}
