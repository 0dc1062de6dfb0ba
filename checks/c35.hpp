#pragma once
// C35: QuickSim with all its random outcomes chosen by the explorer, against direct enumeration and a reference search.
#include "mc.hpp"
#ifdef VERIF_SCHEDULED
#include "conc.hpp"
#endif
#include <algorithm>
#include <chrono>
#include <mutex>
#include <random>
#include <functional>
#include <memory>
#include <numeric>
#include <thread>
namespace verif
{
static mc::ctx* owner = nullptr;
struct drawn
{
    uint64_t n, pick;
    int      thread;
};
static std::vector<drawn> draws;
static int free_draws = 1000;  // draws beyond these take the candidate `rest` names: 0 first, 1 last, 2 alternating
static int rest = 0, real_draws = 0;
#ifdef VERIF_SCHEDULED
using quiet = vs_quiet;
static int self() { return vs_self(); }
#else
struct quiet { quiet() {} ~quiet() {} };
static int self() { return 1; }
#endif
}
struct verif_random_device
{
    using result_type = unsigned;
    unsigned operator()() const { return 0; }
};
struct verif_engine  // drawing changes the engine, as with any other one
{
    using result_type = uint64_t;
    uint64_t state;
    explicit verif_engine(uint64_t s = 0) : state{s} {}
    static constexpr uint64_t min() { return 0; }
    static constexpr uint64_t max() { return ~uint64_t{0}; }
};
template <class T = int> struct verif_uniform
{
    T lo, hi;
    verif_uniform(T a, T b) : lo{a}, hi{b} {}
    T operator()(verif_engine& g)
    {
        g.state = g.state * 3 + 1;
        verif::quiet q;
        const auto n = static_cast<uint64_t>(hi - lo) + 1;
        int k = 0;
        if (n > 1)
        {
            k = verif::real_draws < verif::free_draws ? verif::owner->choose(static_cast<int>(n)) : verif::rest == 0 ? 0 : verif::rest == 1 ? static_cast<int>(n) - 1 : verif::real_draws % static_cast<int>(n);
            ++verif::real_draws;
        }
        verif::draws.push_back({n, static_cast<uint64_t>(k), verif::self()});
        return lo + static_cast<T>(k);
    }
};
namespace std
{
using verif_random_device = ::verif_random_device;
using verif_engine        = ::verif_engine;
template <class T = int> using verif_uniform = ::verif_uniform<T>;
}
#define random_device verif_random_device
#define mt19937_64 verif_engine
#define mt19937 verif_engine
#define uniform_int_distribution verif_uniform
#include "sidbfic.hpp"
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>
#undef random_device
#undef mt19937_64
#undef mt19937
#undef uniform_int_distribution
using namespace fiction;
using sidb::at;
using plain = sidb_100_cell_clk_lyt_siqad;

// the search as published: start from every dot not known to be negative and keep adding a far dot as electron
struct reference
{
    std::set<std::vector<int>> found;
    bool                       ok = true;  // no decision too close to call
    bool                       mismatch = false;
    size_t                     used = 0;
};
static void far_search(const sidb::model& m, double alpha, uint64_t iterations, const std::vector<verif::drawn>& d, reference& r)
{
    const int        n = static_cast<int>(m.s.size());
    std::vector<int> all(n, -1), neg;
    const auto       note = [&](const std::vector<int>& v)
    {
        const auto q = m.valid(v);
        if (q == sidb::verdict::borderline) r.ok = false;
        if (q == sidb::verdict::valid) r.found.insert(v);
    };
    note(all);
    std::vector<int> u;
    for (int i = 0; i < n; ++i)
    {
        const double slack = m.pot_int(i, all) + m.ext[i] - m.p.mu;
        if (std::abs(slack - sidb::MARGIN) < sidb::BAND) r.ok = false;
        if (slack > sidb::MARGIN) neg.push_back(i);
        else u.push_back(i);
    }
    std::vector<int> base(n, 0);
    for (int i : neg) base[i] = -1;
    note(base);
    if (u.empty()) return;
    for (uint64_t l = 0; l < iterations; ++l)
        for (int start : u)
        {
            auto v   = base;
            v[start] = -1;
            note(v);
            for (size_t k = 1; k < u.size(); ++k)
            {
                std::vector<std::pair<int, double>> cand;
                double                              most = 0;
                for (int i = 0; i < n; ++i)
                    if (v[i] == 0)
                    {
                        double least = 1e300;
                        for (int j = 0; j < n; ++j)
                            if (v[j] < 0) least = std::min(least, sidb::dist(m.s[i], m.s[j]));
                        cand.push_back({i, least});
                        most = std::max(most, least);
                    }
                if (cand.empty()) break;
                std::vector<int> eligible;
                for (auto [i, x] : cand)
                {
                    if (x != most && std::abs(x - alpha * most) < 1e-9) r.ok = false;
                    if (x >= alpha * most - 1e-9) eligible.push_back(i);
                }
                size_t pick = 0;
                if (eligible.size() > 1)
                {
                    while (r.used < d.size() && d[r.used].n < 2) ++r.used;
                    if (r.used >= d.size() || d[r.used].n != eligible.size()) { r.mismatch = true; return; }
                    pick = d[r.used++].pick;
                }
                v[eligible[pick]] = -1;
                note(v);
            }
        }
}
static std::string name(const sidb::model& m, double alpha, uint64_t steps, uint64_t threads)
{
    std::string s;
    for (const auto& p : m.s) s += sidb::str(p);
    return s + " mu " + std::to_string(m.p.mu) + " eps " + std::to_string(m.p.eps) + " alpha " + std::to_string(alpha) + " steps " + std::to_string(steps) + " threads " + std::to_string(threads);
}
static bool same(const sidb_simulation_parameters& a, const sidb_simulation_parameters& b) { return a.mu_minus == b.mu_minus && a.epsilon_r == b.epsilon_r && a.lambda_tf == b.lambda_tf; }
// after the call: everything returned is right, everything the search visits and is valid is there
static void check_quicksim(mc::ctx& c, const plain& l, const sidb::model& m, const quicksim_params& p, const std::optional<sidb_simulation_result<plain>>& r, const std::string& what)
{
    const auto sp = sidb::solve(m, 2);
    if (r)
    {
        c.check(!r->charge_distributions.empty(), "a result without configurations", what);
        c.check(r->algorithm_name == "QuickSim", "algorithm name", what);
        c.check(same(r->simulation_parameters, p.simulation_parameters), "simulation parameters of the result", what);
        sidb::check_result(c, m, sp, *r, what, false, false);
        for (const auto& cd : r->charge_distributions)
        {
            c.check(same(cd.get_simulation_params(), p.simulation_parameters), "simulation parameters of a configuration", what);
            const auto n = charges(m, cd);
            std::vector<int> byindex;
            for (const auto& s : sidb::ordered<plain>(m.s)) byindex.push_back(sidb::sg(cd.get_charge_state(at<plain>(s))));
            c.check(cd.get_charge_index_and_base().first == sidb::index_of(byindex, 2) && cd.get_charge_index_and_base().second == 2, "charge index of a returned configuration", what + ": " + sidb::str(n));
        }
    }
    c.check(l.num_cells() == m.s.size(), "the layout changed", what);
    const uint64_t threads = std::max<uint64_t>(p.number_threads, 1), each = std::max<uint64_t>(p.iteration_steps / threads, 1);
    std::map<int, std::vector<verif::drawn>> by;
    for (const auto& d : verif::draws) by[d.thread].push_back(d);
    c.check(by.size() <= threads, "more threads searched than requested", what + ": " + std::to_string(by.size()));
    std::set<std::vector<int>> expected;
    bool ok = sp.maybe.empty();
    // threads without any choice to make leave no draws; they all visit the same configurations
    if (by.size() < threads) by[-1] = {};
    int silent = static_cast<int>(threads) - static_cast<int>(by.size()) + 1;
    (void)silent;
    for (const auto& [t, d] : by)
    {
        reference rf;
        far_search(m, p.alpha, each, d, rf);
        ok = ok && rf.ok;
        if (!ok) return;
        c.check(!rf.mismatch, t < 0 ? "a requested thread did not search" : "the search chose among other dots or did fewer iterations than it should", what);
        size_t n = rf.used;
        while (n < d.size() && d[n].n < 2) ++n;
        c.check(n == d.size(), "more iterations than requested", what);
        expected.insert(rf.found.begin(), rf.found.end());
    }
    c.check(r.has_value() == !expected.empty(), r ? "a result although nothing was found" : "no result although the search visits a valid configuration", what);
    if (!r) return;
    std::set<std::vector<int>> got;
    for (const auto& cd : r->charge_distributions) got.insert(charges(m, cd));
    for (const auto& v : expected) c.check(got.count(v), "a valid configuration that was visited is missing", what + ": " + sidb::str(v));
    for (const auto& v : got) c.check(expected.count(v), "a configuration that was not visited is returned", what + ": " + sidb::str(v));
}
