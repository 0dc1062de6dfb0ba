// Independent electrostatics of small SiDB systems: every charge assignment of a handful of dots is
// evaluated directly from positions and physical constants; nothing of the code under test is used.
#ifndef VERIF_SIDB_HPP
#define VERIF_SIDB_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <set>
#include <string>
#include <vector>

namespace sidb
{
struct pos  // lattice vector (n, m) and sublattice l
{
    int  n, m, l;
    bool operator==(const pos& o) const { return n == o.n && m == o.m && l == o.l; }
    bool operator<(const pos& o) const { return std::array{m, l, n} < std::array{o.m, o.l, o.n}; }
};
inline std::string str(const pos& p) { return "(" + std::to_string(p.n) + "," + std::to_string(p.m) + "," + std::to_string(p.l) + ")"; }
inline double      dist(const pos& a, const pos& b)  // nm, H-Si(100)-2x1
{
    const double dx = 0.384 * (a.n - b.n), dy = 0.768 * (a.m - b.m) + 0.225 * (a.l - b.l);
    return std::sqrt(dx * dx + dy * dy);
}
struct phys
{
    double mu = -0.32, eps = 5.6, lam = 5.0;
    double mu_plus() const { return mu - 0.59; }
};
inline double volt(double d, double eps, double lam)  // potential of a unit charge
{
    return d == 0 ? 0.0 : 8.987552e9 / eps / (d * 1e-9) * std::exp(-d / lam) * 1.6021766e-19;
}
struct defect
{
    pos    p;
    int    q;
    double eps, lam, ext = 0;
};
enum class verdict
{
    invalid,
    valid,
    borderline
};
constexpr double MARGIN = 1e-6, BAND = 1e-9;
struct model
{
    std::vector<pos>    s;    // dots
    std::vector<double> ext;  // external potential per dot
    std::vector<defect> d;    // charged defects
    phys                p;

    double v(size_t i, size_t j) const { return volt(dist(s[i], s[j]), p.eps, p.lam); }
    double pot_defects(size_t i) const
    {
        double r = 0;
        for (const auto& x : d) r += volt(dist(s[i], x.p), x.eps, x.lam) * x.q;
        return r;
    }
    double pot_int(size_t i, const std::vector<int>& n) const
    {
        double r = pot_defects(i);
        for (size_t j = 0; j < s.size(); ++j)
            if (j != i) r += v(i, j) * n[j];
        return r;
    }
    double energy(const std::vector<int>& n) const
    {
        double e = 0;
        for (size_t i = 0; i < s.size(); ++i) e += ext[i] * n[i] + 0.5 * pot_int(i, n) * n[i];
        for (const auto& x : d)
        {
            double f = 0;
            for (const auto& y : d) f += volt(dist(x.p, y.p), y.eps, y.lam) * y.q;
            for (size_t i = 0; i < s.size(); ++i) f += volt(dist(x.p, s[i]), p.eps, p.lam) * n[i];
            e += x.ext * x.q + 0.5 * f * x.q;
        }
        return e;
    }
    // population stability with the documented margin
    verdict population(const std::vector<int>& n) const
    {
        verdict r = verdict::valid;
        for (size_t i = 0; i < s.size(); ++i)
        {
            const double V = pot_int(i, n) + ext[i];
            double       slack;  // >0: stable
            if (n[i] < 0) slack = V - p.mu + MARGIN;
            else if (n[i] > 0) slack = -(V - p.mu_plus()) + MARGIN;
            else slack = std::min(-(V - p.mu) + MARGIN, (V - p.mu_plus()) + MARGIN);
            if (std::abs(slack) < BAND) r = verdict::borderline;
            else if (slack < 0) return verdict::invalid;
        }
        return r;
    }
    // no electron lowers the energy by moving to a less negative dot; half_margin admits both scalings of the margin
    verdict configuration(const std::vector<int>& n) const
    {
        verdict r = verdict::valid;
        for (size_t i = 0; i < s.size(); ++i)
            for (size_t j = 0; j < s.size(); ++j)
            {
                if (n[i] >= n[j]) continue;
                const double de = (pot_int(i, n) + ext[i]) - (pot_int(j, n) + ext[j]) - v(i, j);
                if (de < -2 * MARGIN - BAND) return verdict::invalid;
                if (de < -MARGIN + BAND) r = verdict::borderline;
            }
        return r;
    }
    verdict valid(const std::vector<int>& n) const
    {
        const auto a = population(n);
        if (a == verdict::invalid) return a;
        const auto b = configuration(n);
        if (b == verdict::invalid) return b;
        return a == verdict::borderline ? a : b;
    }
    template <class F> void all(int base, F f) const
    {
        std::vector<int> n(s.size(), -1);
        for (;;)
        {
            f(n);
            size_t k = n.size();
            while (k > 0 && ++n[k - 1] > base - 2) n[--k] = -1;
            if (k == 0) return;
        }
    }
};
inline std::string str(const std::vector<int>& n)
{
    std::string s;
    for (int x : n) s += x < 0 ? '-' : x > 0 ? '+' : '0';
    return s;
}
}  // namespace sidb
#endif
