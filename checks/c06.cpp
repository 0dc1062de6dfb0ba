// C06: multi_simulated_annealing under every schedule (preemption bounded), with happens-before race detection.
#include "conc.hpp"
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <map>
#include <string>

using namespace fiction;

namespace
{
struct instance_log
{
    int              starts{0};
    std::vector<int> visited;
};
// state: (instance number handed out by the generator, level); costs come from a table per instance
struct st
{
    int inst{-1};
    int level{0};
};
struct run_log
{
    int                         handed{0};
    std::map<int, instance_log> inst;
    std::map<int, int>          by_thread;
    int                         early{0};
};
}  // namespace

static void explore(mc::ctx& c, int instances, int preemptions, int tables, const char* what)
{
    // cost table: level 0..2 of each instance; first choices so that the work can be sharded
    static const std::vector<std::vector<double>> T{{5, 4, 3}, {5, 1, 4}, {0, 6, 7}, {3, 3, 3}, {9, 8, 2}, {1, 2, 0}};
    std::vector<int> tab;
    const int first = c.choose(tables * tables);
    tab.push_back(first % tables);
    tab.push_back(first / tables);
    for (int i = 2; i < instances; ++i) tab.push_back(c.choose(tables));
    tab.resize(static_cast<std::size_t>(instances));
    run_log log;
    std::string desc = what;
    for (int t : tab) desc += " " + std::to_string(t);
    std::pair<st, double> r;
    int created = 0, live = 0;
    mc::explore_schedules(c, preemptions, std::string{"parallel annealing"}, [&] {
        const auto cost_of = [&](const st& s) { return T[static_cast<std::size_t>(tab[static_cast<std::size_t>(s.inst)])][static_cast<std::size_t>(s.level)]; };
        r = multi_simulated_annealing(
            2.0, 1.0, 2, static_cast<std::size_t>(instances),
            [&] {
                vs_yield();
                vs_quiet q;
                const int n = log.handed++;
                log.inst[n].starts++;
                return st{n, 0};
            },
            [&](const st& s) {
                vs_yield();
                vs_quiet q;
                log.inst[s.inst].visited.push_back(s.level);
                // hopeless unless improving, so that no random draw matters
                return 1000.0 * cost_of(s);
            },
            [](const double t) { return t - 1.0; },
            [&](st s) {
                vs_yield();
                s.level = s.level < 2 ? s.level + 1 : 0;
                return s;
            });
        live    = vs_live();
        created = vs_created();
    });
    c.check(live == 0, "the call returned before all instances had finished: " + desc);
    c.check(log.handed == instances && static_cast<int>(log.inst.size()) == instances, "wrong number of instances run: " + desc, std::to_string(log.handed));
    // what each instance must find on its own
    double best = 1e300;
    for (int i = 0; i < instances; ++i)
    {
        const auto& t = T[static_cast<std::size_t>(tab[static_cast<std::size_t>(i)])];
        int cur = 0;
        double b = t[0];
        std::vector<int> want{0};
        for (int k = 0; k < 2; ++k)
        {
            const int nx = cur < 2 ? cur + 1 : 0;
            want.push_back(nx);
            if (t[static_cast<std::size_t>(nx)] <= t[static_cast<std::size_t>(cur)]) cur = nx;
            b = std::min(b, t[static_cast<std::size_t>(cur)]);
        }
        c.check(log.inst[i].starts == 1 && log.inst[i].visited == want, "an instance did not run exactly its walk: " + desc);
        best = std::min(best, b);
    }
    c.check(r.second == 1000.0 * best, "not the cheapest result: " + desc, std::to_string(r.second));
    c.check(r.first.inst >= 0 && r.first.inst < instances && 1000.0 * T[static_cast<std::size_t>(tab[static_cast<std::size_t>(r.first.inst)])][static_cast<std::size_t>(r.first.level)] == r.second, "returned state does not have the returned cost: " + desc);
    std::string trace = desc;
    c.state(mc::hash_mix(mc::hash_str(desc), static_cast<uint64_t>(vs_points())));
    c.sample(desc + " cost " + std::to_string(r.second) + ", " + std::to_string(vs_points()) + " scheduling points, " + std::to_string(vs_accesses()) + " accesses checked");
    (void)created;
}
MC_MODEL(two_instances, "2 instances, all 36 pairs of cost tables, all schedules with up to 3 (thorough 4) preemptions", 8)
{
    explore(c, 2, c.thorough ? 4 : 3, 6, "two instances");
}
MC_MODEL(three_instances, "3 instances, 27 cost tables, all schedules with up to 1 (thorough 2) preemptions", 8)
{
    explore(c, 3, c.thorough ? 2 : 1, 3, "three instances");
}
MC_MODEL(one_instance, "1 instance, all schedules", 1)
{
    explore(c, 1, 3, 6, "one instance");
}
// real random draws: only races, completion and consistency of the returned pair are judged
MC_MODEL(random_draws, "2 instances whose acceptance draws are taken, all schedules with up to 2 preemptions", 4)
{
    const int walk = c.choose(4);
    std::pair<int, double> r;
    int live = 0;
    mc::explore_schedules(c, 2, "parallel annealing with draws", [&] {
        r = multi_simulated_annealing(
            3.0, 1.0, 1, 2, [&] { vs_yield(); return walk; }, [](int s) { return static_cast<double>(s * s % 7); },
            [](const double t) { return t - 1.0; }, [](int s) { vs_yield(); return s + 1; });
        live = vs_live();
    });
    c.check(live == 0, "the call returned before all instances had finished");
    c.check(r.second == static_cast<double>(r.first * r.first % 7), "returned state does not have the returned cost");
    c.state(static_cast<uint64_t>(walk * 100000 + vs_points()));
}
