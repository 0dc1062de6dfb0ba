// C34: the cluster-based simulator with several threads under every schedule up to a preemption bound.
#include "sidbfic.hpp"
#include "conc.hpp"
#include <random>
#include <thread>
#include <mutex>
#include <algorithm>
// the work distribution is shuffled with a random seed: the explorer owns the seed
struct verif_random_device
{
    using result_type = unsigned;
    static inline unsigned seed{0};
    unsigned operator()() const { return seed; }
};
namespace std { using verif_random_device = ::verif_random_device; }
#define random_device verif_random_device
#define FICTION_ALGLIB_ENABLED 1
#include <fiction/algorithms/simulation/sidb/clustercomplete.hpp>
using namespace fiction;
using plain = sidb_100_cell_clk_lyt_siqad;
static const std::vector<std::vector<sidb::pos>> SETS{{{0, 0, 0}, {3, 0, 0}}, {{0, 0, 0}, {2, 0, 0}, {5, 0, 0}}, {{0, 0, 0}, {1, 0, 0}, {5, 0, 0}}, {{0, 0, 0}, {1, 0, 0}, {4, 1, 0}, {5, 1, 0}}};
static void run(mc::ctx& c, int threads, int preemptions, int sets)
{
    sidb::model m;
    const int k = c.choose(sets), base = 2 + c.choose(2);
    m.s = sidb::ordered<plain>(SETS[k]);
    m.p = {base == 2 ? -0.28 : -0.1, 5.6, 5.0};
    m.ext.assign(m.s.size(), 0.0);
    verif_random_device::seed = static_cast<unsigned>(c.choose(2));
    clustercomplete_params<cell<plain>> p;
    p.simulation_parameters = sidb::params(m.p, base);
    p.available_threads     = static_cast<uint64_t>(threads);
    const auto l  = sidb::layout<plain>(m.s);
    const auto sp = sidb::solve(m, base);
    std::optional<sidb_simulation_result<plain>> r;
    mc::explore_schedules(c, preemptions, "clustercomplete", [&] { r.emplace(clustercomplete(l, p)); });
    const std::string what = std::to_string(threads) + " threads, set " + std::to_string(k) + " base " + std::to_string(base) + ", " + std::to_string(sp.sure.size()) + " valid";
    sidb::check_result(c, m, sp, *r, what);
}
MC_MODEL(two_threads, "clustercomplete with 2 threads on 3 (thorough 4) dot sets, both bases, two work orders: all schedules with at most 1 (thorough 2) preemptions", 3) { run(c, 2, c.thorough ? 2 : 1, c.thorough ? 4 : 3); }
MC_MODEL(three_threads, "clustercomplete with 3 threads on 2 (thorough 3) dot sets, both bases, two work orders: all schedules without preemption (thorough: with at most 1)", 2) { run(c, 3, c.thorough ? 1 : 0, c.thorough ? 3 : 2); }
MC_MODEL(many_threads, "clustercomplete with 4 threads (more threads than work) on 2 dot sets: schedules without preemption", 2) { run(c, 4, 0, 1 + c.thorough); }
