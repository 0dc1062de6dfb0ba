// C35: several threads under every schedule up to a preemption bound, with race detection.
#define VERIF_SCHEDULED 1
#include "c35.hpp"
static const std::vector<std::vector<sidb::pos>> SETS{{{0, 0, 0}, {1, 0, 0}}, {{0, 0, 0}, {1, 0, 0}, {5, 0, 0}}, {{0, 0, 0}, {5, 0, 0}}, {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {30, 0, 0}}};
static void run(mc::ctx& c, uint64_t threads, uint64_t steps, int preemptions, int sets)
{
    sidb::model m;
    m.s = sidb::ordered<plain>(SETS[c.choose(sets)]);
    m.p = {-0.32, 5.6, 5.0};
    m.ext.assign(m.s.size(), 0.0);
    quicksim_params p;
    p.simulation_parameters = sidb::params(m.p, 2);
    p.alpha = 0.0, p.iteration_steps = steps, p.number_threads = threads;
    const auto l = sidb::layout<plain>(m.s);
    verif::owner = &c;
    verif::draws.clear(), verif::real_draws = 0;
    std::optional<sidb_simulation_result<plain>> r;
    int created = 0;
    mc::explore_schedules(c, preemptions, "quicksim", [&] { r = quicksim(l, p); created = vs_created(); });
    const auto what = name(m, p.alpha, steps, threads);
    c.check(created == static_cast<int>(threads), "number of threads", what + ": " + std::to_string(created));
    check_quicksim(c, l, m, p, r, what);
}
MC_MODEL(two_threads, "quicksim with 2 threads on 3 (thorough 4) dot sets, one iteration each, all random outcomes: all schedules with at most 2 (thorough 3) preemptions", 3) { run(c, 2, 1, c.thorough ? 3 : 2, c.thorough ? 4 : 3); }
MC_MODEL(more_steps, "quicksim with 2 threads and 2 to 5 iterations in total, all random outcomes: all schedules with at most 2 preemptions", 2) { const int k = c.choose(4); run(c, 2, static_cast<uint64_t>(2 + k), c.thorough ? 3 : 2, 2); }
MC_MODEL(three_threads, "quicksim with 3 threads on 2 (thorough 3) dot sets, all random outcomes: all schedules with at most 1 (thorough 2) preemptions", 2) { run(c, 3, 3, c.thorough ? 2 : 1, c.thorough ? 3 : 2); }
MC_MODEL(more_threads_than_steps, "quicksim with 4 threads for 1 or 3 iterations, all random outcomes: all schedules without (thorough: with at most 1) preemption", 2) { const int k = c.choose(2); run(c, 4, k ? 3 : 1, c.thorough, 2); }
