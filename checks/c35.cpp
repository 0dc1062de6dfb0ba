// C35: one thread, every outcome of the random choices.
#include "c35.hpp"

static long readings = 0, runs_out = -1;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
    ++readings;
    return time_point(std::chrono::hours(runs_out >= 0 && readings > runs_out ? 1000 : 1));
}
static const sidb::pos  SITE[] = {{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {3, 1, 0}, {5, 0, 0}, {8, 1, 1}, {13, 0, 0}, {30, 0, 0}};
static const sidb::phys PH[]   = {{-0.32, 5.6, 5.0}, {-0.1, 4.1, 3.0}, {-0.25, 6.5, 7.0}, {0.05, 5.6, 5.0}};
static std::vector<sidb::pos> pick(mc::ctx& c, int sites, int most)
{
    std::vector<sidb::pos> v;
    int last = c.choose(sites);
    v.push_back(SITE[last]);
    while (static_cast<int>(v.size()) < most && last + 1 < sites)
    {
        const int k = c.choose(sites - last);
        if (k == 0) break;
        last += k;
        v.push_back(SITE[last]);
    }
    return v;
}
static void run(mc::ctx& c, const std::vector<sidb::pos>& s, const sidb::phys& ph, double alpha, uint64_t steps, uint64_t threads)
{
    sidb::model m;
    m.s = sidb::ordered<plain>(s);
    m.p = ph;
    m.ext.assign(s.size(), 0.0);
    quicksim_params p;
    p.simulation_parameters = sidb::params(ph, 2 + c.choose(2));  // the base of the parameters does not matter
    p.alpha = alpha, p.iteration_steps = steps, p.number_threads = threads;
    const auto l = sidb::layout<plain>(s);
    verif::owner = &c;
    verif::draws.clear(), verif::real_draws = 0;
    const auto what = name(m, alpha, steps, threads);
    c.sample(what);
    const auto r = quicksim(l, p);
    check_quicksim(c, l, m, p, r, what);
}
MC_MODEL(choices, "sets of up to 4 of 6 (thorough 8) sites, 4 parameter sets, alpha 0, 0.7 and 1, one iteration: every outcome of the first 7 (thorough: of all) random choices", 12)
{
    const int        first = c.choose(12);
    const int        sites = c.thorough ? 8 : 6;
    const auto       s     = pick(c, sites, 4);
    static const double A[] = {0.0, 0.7, 1.0};
    verif::free_draws = c.thorough ? 1000 : 7;
    run(c, s, PH[first % 4], A[first / 4], 1, 1);
}
MC_MODEL(iterations, "sets of up to 3 of 6 sites, 2 to 6 iterations, alpha 0 and 0.7, one thread and \"no\" thread: every outcome of the first 4 (thorough 9) random choices, 3 ways to go on", 12)
{
    const int first = c.choose(12);
    const auto s = pick(c, 6, 3);
    verif::free_draws = c.thorough ? 9 : 4, verif::rest = c.choose(3);
    run(c, s, PH[first % 4], first < 4 ? 0.7 : 0.0, static_cast<uint64_t>(2 + c.choose(5)), first < 8 ? 1 : 0);
}
MC_MODEL(many_dots, "chains of 5 to 7 dots with 4 spacings, default alpha: every outcome of the first 5 (thorough 9) random choices, 3 ways to go on", 8)
{
    const int n = 5 + c.choose(c.thorough ? 4 : 3), k = c.choose(4);
    std::vector<sidb::pos> s;
    for (int i = 0; i < n; ++i) s.push_back({i * (k + 1), (k == 3 && i % 2) ? 1 : 0, i % 2 ? (k & 1) : 0});
    verif::free_draws = c.thorough ? 9 : 5, verif::rest = c.choose(3);
    run(c, s, PH[c.choose(4)], 0.7, 1, 1);
}
MC_MODEL(exhausted, "empty layouts, no iterations, and time that runs out at every reading of the clock: nothing is returned", 4)
{
    const int kind = c.choose(4);
    sidb::model m;
    quicksim_params p;
    p.number_threads = 1;
    verif::owner = &c;
    verif::draws.clear(), verif::real_draws = 0;
    if (kind == 0)
    {
        c.check(!quicksim(plain{}, p).has_value(), "a result for a layout without dots");
        return;
    }
    const auto s = pick(c, 6, 3);
    const auto l = sidb::layout<plain>(s);
    m.s = sidb::ordered<plain>(s);
    m.p = PH[c.choose(4)];
    m.ext.assign(s.size(), 0.0);
    p.simulation_parameters = sidb::params(m.p, 2);
    if (kind == 1)
    {
        p.iteration_steps = 0;
        c.check(!quicksim(l, p).has_value(), "a result of no iterations");
        return;
    }
    p.iteration_steps = 2, p.number_threads = 1, p.alpha = 0.7;
    if (kind == 2) p.timeout = 0;
    else p.timeout = 1000;
    readings = 0, runs_out = kind == 2 ? -1 : c.choose(16);
    const auto r     = quicksim(l, p);
    const auto total = readings, late = runs_out;
    runs_out = -1;
    const auto what = name(m, p.alpha, 2, 1) + " timeout " + std::to_string(p.timeout) + " late from reading " + std::to_string(late) + " of " + std::to_string(total);
    if (r) sidb::check_result(c, m, sidb::solve(m, 2), *r, what, false, false);
    // nothing left to search: no time is needed
    reference rf;
    verif::draws.clear(), verif::real_draws = 0;
    bool all = true;
    for (size_t i = 0; i < m.s.size(); ++i) all = all && m.pot_int(i, std::vector<int>(m.s.size(), -1)) - m.p.mu > 1e-6;
    if (kind == 2 && !all) c.check(!r, "a result although there was no time", what);
    if (kind == 3 && !all && late > 0 && late + 1 < total - 1) c.check(!r, "a result although the time ran out", what);
}
