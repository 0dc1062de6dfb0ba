// Stand-in for ALGLIB's agglomerative hierarchical clustering (points, Euclidean distance).
#ifndef VERIF_STANDIN_DATAANALYSIS_H
#define VERIF_STANDIN_DATAANALYSIS_H
#include "ap.h"
#include <algorithm>
#include <cmath>
#include <vector>
namespace alglib
{
struct clusterizerstate
{
    real_2d_array points;
    int           algo{0};
};
struct ahcreport
{
    int              terminationtype{1};
    ae_int_t         npoints{0};
    integer_2d_array z;
};
// when set, decides which of n candidate pairs is merged next (used to enumerate all hierarchies)
inline int (*verif_choose_merge)(int n) = nullptr;

inline void clusterizercreate(clusterizerstate& s) { s = clusterizerstate{}; }
inline void clusterizersetpoints(clusterizerstate& s, const real_2d_array& p, ae_int_t) { s.points = p; }
inline void clusterizersetahcalgo(clusterizerstate& s, ae_int_t algo) { s.algo = static_cast<int>(algo); }
inline void clusterizerrunahc(const clusterizerstate& s, ahcreport& rep)
{
    const auto n = s.points.rows();
    rep.npoints  = n;
    if (n > 1) rep.z.setlength(n - 1, 2);
    struct cl
    {
        ae_int_t              id;
        std::vector<ae_int_t> m;
    };
    std::vector<cl> live;
    for (ae_int_t i = 0; i < n; ++i) live.push_back({i, {i}});
    const auto pd = [&](ae_int_t i, ae_int_t j) { return std::hypot(s.points(i, 0) - s.points(j, 0), s.points(i, 1) - s.points(j, 1)); };
    // distances between clusters, Lance-Williams
    std::vector<std::vector<double>> d(static_cast<std::size_t>(2 * n), std::vector<double>(static_cast<std::size_t>(2 * n), 0.0));
    for (ae_int_t i = 0; i < n; ++i)
        for (ae_int_t j = 0; j < n; ++j) d[i][j] = s.algo == 4 ? pd(i, j) * pd(i, j) : pd(i, j);
    for (ae_int_t k = 0; k + 1 < n; ++k)
    {
        std::size_t bi = 0, bj = 1;
        if (verif_choose_merge != nullptr)
        {
            const auto L = live.size();
            int        w = verif_choose_merge(static_cast<int>(L * (L - 1) / 2));
            for (bi = 0; w >= static_cast<int>(L - 1 - bi); ++bi) w -= static_cast<int>(L - 1 - bi);
            bj = bi + 1 + static_cast<std::size_t>(w);
        }
        else
            for (std::size_t i = 0; i < live.size(); ++i)
                for (std::size_t j = i + 1; j < live.size(); ++j)
                    if (d[live[i].id][live[j].id] < d[live[bi].id][live[bj].id]) bi = i, bj = j;
        const cl a = live[bi], b = live[bj];
        cl       u{n + k, a.m};
        u.m.insert(u.m.end(), b.m.begin(), b.m.end());
        const double na = static_cast<double>(a.m.size()), nb = static_cast<double>(b.m.size());
        for (const auto& c : live)
        {
            if (c.id == a.id || c.id == b.id) continue;
            const double da = d[a.id][c.id], db = d[b.id][c.id], nc = static_cast<double>(c.m.size());
            double       r  = 0;
            switch (s.algo)
            {
                case 0: r = std::max(da, db); break;
                case 1: r = std::min(da, db); break;
                case 2: r = (na * da + nb * db) / (na + nb); break;
                case 3: r = (da + db) / 2; break;
                default: r = ((na + nc) * da + (nb + nc) * db - nc * d[a.id][b.id]) / (na + nb + nc); break;
            }
            d[u.id][c.id] = d[c.id][u.id] = r;
        }
        rep.z(k, 0) = std::min(a.id, b.id);
        rep.z(k, 1) = std::max(a.id, b.id);
        live.erase(live.begin() + static_cast<std::ptrdiff_t>(bj));
        live.erase(live.begin() + static_cast<std::ptrdiff_t>(bi));
        live.push_back(u);
    }
}
}  // namespace alglib
#endif
