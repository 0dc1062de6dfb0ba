// C05: simulated annealing under every sequence of proposals and acceptance draws.
#include "mc.hpp"
#include <random>
#include <cmath>
#include <optional>

// The library's acceptance draws become choices of the explorer: std::uniform_real_distribution is
// replaced (in this translation unit only) by one that asks the explorer for its value.
static mc::ctx*            g_ctx = nullptr;
static std::vector<double> g_draw_values;
static std::optional<double> g_last_draw;
static uint64_t            g_draws = 0;
namespace std
{
template <class R = double>
struct mc_uniform_real_distribution
{
    R lo, hi;
    mc_uniform_real_distribution(R a = 0, R b = 1) : lo{a}, hi{b} {}
    template <class G>
    R operator()(G&)
    {
        ++g_draws;
        const double v = g_ctx->pick(g_draw_values);
        g_last_draw    = v;
        return static_cast<R>(lo + v * (hi - lo));
    }
};
}  // namespace std
#define uniform_real_distribution mc_uniform_real_distribution
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#undef uniform_real_distribution

using namespace fiction;

struct state  // notices being used after having been moved from
{
    int  id{-1};
    state() = default;
    explicit state(int i) : id{i} {}
    state(const state&) = default;
    state(state&& o) noexcept : id{o.id} { o.id = -99; }
    state& operator=(const state&) = default;
    state& operator=(state&& o) noexcept
    {
        const int i = o.id;
        o.id = -99;
        id = i;
        return *this;
    }
};

// Cost: value table; the walk is followed by a reference machine that allows exactly the permitted moves.
template <class Cost>
static void walk(mc::ctx& c, int proposals_per_temp, const std::vector<double>& returned_temps, double t0, double tf,
                 const std::vector<Cost>& values, int nstates)
{
    g_ctx = &c;
    std::vector<Cost> cost(static_cast<std::size_t>(nstates));
    for (auto& v : cost) v = c.pick(values);
    int  current = 0, proposed = -1, best_seen = 0;
    bool pending = false;
    std::size_t sched = 0, in_temp = 0;
    double temp = t0;
    uint64_t proposals = 0;
    std::set<int> visited{0};
    std::string h = "cost";
    for (auto v : cost) h += " " + std::to_string(v).substr(0, 5);
    h += ": 0";
    bool bad = false;
    const auto fail = [&](const std::string& what) { if (!bad) { bad = true; c.report(what, h); } };
    // called when the next observation tells us whether the last proposal was accepted; -1: unknown (end of the run)
    const auto allowed = [&](bool acc) {
        const double delta = static_cast<double>(cost[proposed]) - static_cast<double>(cost[current]);
        if (delta <= 0) return acc;  // never worse: must be taken
        const double p = std::exp(-delta / temp);
        if (g_last_draw)
        {
            return acc == (*g_last_draw < p);
        }
        // no draw: only hopeless proposals may be dismissed without one
        return !acc && p <= std::exp(-10.0) + 1e-12;
    };
    bool initial_costed = false;
    const auto costf = [&](const state& s) -> Cost {
        c.step();
        if (s.id < 0 || s.id >= nstates) { fail("cost of a state that does not exist (moved-from?)"); return Cost{0}; }
        initial_costed = true;
        return cost[static_cast<std::size_t>(s.id)];
    };
    const auto resolve = [&](int now) {
        if (!pending) return;
        pending = false;
        const bool same = proposed == current;
        const bool acc = now == proposed && !(same);
        if (same) { if (now != current) fail("walk jumps to a state that was not proposed"); g_last_draw.reset(); return; }
        if (now != proposed && now != current) { fail("walk jumps to a state that was not proposed"); }
        else if (!allowed(acc)) { fail(acc ? "takes a proposal it must not take" : "refuses a proposal it must take"); }
        if (acc) current = proposed;
        g_last_draw.reset();
    };
    const auto next = [&](const state& s) -> state {
        c.step();
        if (++in_temp > static_cast<std::size_t>(proposals_per_temp)) fail("too many proposals at one temperature");
        resolve(s.id);
        if (s.id != current) fail("neighbour requested for a state that is not the current one");
        ++proposals;
        proposed = c.choose(nstates);
        pending  = true;
        g_last_draw.reset();
        visited.insert(proposed);
        h += ">" + std::to_string(proposed);
        if (cost[proposed] < cost[best_seen]) best_seen = proposed;
        c.state(mc::hash_mix(mc::hash_str(h), static_cast<uint64_t>(current)));
        return state{proposed};
    };
    // the acceptance of the last proposal of a temperature is only observed later, at a temperature that is no longer
    // the one that was in force; remember it
    double              pending_temp = t0;
    const auto schedule = [&](double t) -> double {
        c.step();
        if (std::abs(t - temp) > 1e-9) fail("schedule called with a temperature that is not the current one");
        if (in_temp != static_cast<std::size_t>(proposals_per_temp)) fail("wrong number of proposals at a temperature");
        in_temp = 0;
        double r = tf;
        if (sched < returned_temps.size()) r = returned_temps[sched]; else if (temp <= tf) fail("search goes on after the final temperature");
        ++sched;
        h += "|";
        (void)pending_temp;
        return r;
    };
    // wrap schedule so that `temp` changes only once the pending proposal has been resolved
    double next_temp = t0;
    bool   has_next  = false;
    const auto schedule2 = [&](double t) -> double {
        const double r = schedule(t);
        next_temp = std::clamp(r, tf, t0);
        has_next  = true;
        return r;
    };
    const auto next2 = [&](const state& s) -> state {
        resolve(s.id);
        if (has_next) { temp = next_temp; has_next = false; }
        return next(s);
    };
    // schedule called twice without proposals (cycles == 0)
    const auto schedule3 = [&](double t) -> double {
        if (proposals_per_temp == 0 && has_next) { temp = next_temp; has_next = false; }
        return schedule2(t);
    };
    const auto [bs, bc] = simulated_annealing(state{0}, t0, tf, static_cast<std::size_t>(proposals_per_temp), costf, schedule3, next2);
    if (bad) throw mc::stop_execution{};
    c.note(h);
    c.check(bs.id >= 0 && bs.id < nstates, "returned state does not exist", h);
    c.check(visited.count(bs.id) == 1, "returned state was never visited", h);
    c.check(cost[static_cast<std::size_t>(bs.id)] == bc, "returned cost is not that of the returned state", h);
    c.check(bc == cost[best_seen], "a cheaper state had been visited", h);
    // temperatures actually used
    std::size_t expect = 0;
    double t = t0;
    while (t > tf) { const double r = expect < returned_temps.size() ? returned_temps[expect] : tf; ++expect; t = std::clamp(r, tf, t0); }
    c.check(sched == expect, "number of temperatures", h);
    c.check(proposals == expect * static_cast<std::size_t>(proposals_per_temp), "number of proposals", h);
    c.sample(h + " -> state " + std::to_string(bs.id));
}
static const std::vector<double> DRAWS{0.0, 0.25, 0.5, 0.99};

MC_MODEL(integer_costs, "3 states, all cost tables over {-1,0,3,40}, 4 proposals over 2 temperatures, 4 draw values", 4)
{
    g_draw_values = DRAWS;
    static const std::vector<int64_t> v{0, 3, 40, -1};
    walk<int64_t>(c, 2, {3.0}, 6.0, 1.0, v, 3);
}
MC_MODEL(real_costs, "3 states, all cost tables over {-2.5,0.5,3.5}, 4 proposals at 4 temperatures, 4 draw values", 3)
{
    g_draw_values = DRAWS;
    static const std::vector<double> v{-2.5, 0.5, 3.5};
    walk<double>(c, 1, {3.0, 1.5, 6.0}, 6.0, 1.0, v, 3);
}
MC_MODEL(long_walks, "2 states, all cost tables over {0,2}, 6 (thorough 8) proposals, 2 draw values", 2)
{
    g_draw_values = {0.25, 0.75};
    static const std::vector<int64_t> v{0, 2};
    walk<int64_t>(c, c.thorough ? 4 : 3, {2.0}, 4.0, 1.0, v, 2);
}
MC_MODEL(schedules, "all schedules of 3 returned temperatures over {-5,0.5,1,2,4,9} (clamped to [1,4]), cycle counts 0..2", 6)
{
    g_draw_values = {0.25};
    static const std::vector<double> ts{-5.0, 0.5, 1.0, 2.0, 4.0, 9.0};
    std::vector<double> r;
    for (int i = 0; i < 3; ++i) r.push_back(c.pick(ts));
    const int cycles = c.choose(3);
    static const std::vector<int64_t> v{0, 2};
    walk<int64_t>(c, cycles, r, 4.0, 1.0, v, 2);
}
MC_MODEL(degenerate, "initial temperature at or below the final one: no proposal at all", 1)
{
    g_draw_values = {0.25};
    static const std::vector<int64_t> v{0, 2};
    const double t0 = c.flip() ? 1.0 : 0.5;
    walk<int64_t>(c, 2, {}, t0, 1.0, v, 2);
}
// the cut-off for hopeless proposals must not swallow proposals with a realistic chance
MC_MODEL(cutoff, "cost differences 1..60 at temperatures 0.5..8, draw 0", 1)
{
    g_ctx = &c;
    g_draw_values = {0.0};
    const int delta = c.range(1, 60);
    const double t = 0.5 * c.range(1, 16);
    int calls = 0, second = -1;
    const auto next = [&](const int& s) { if (++calls == 2) second = s; return 1; };
    const auto r = simulated_annealing(0, t, t / 2, 2, [&](const int& s) -> int64_t { return s == 0 ? 0 : delta; }, [&](double) { return t / 2; }, next);
    c.step(2);
    c.check(r.first == 0 && r.second == 0, "best state lost");
    const bool acc = second == 1;
    if (delta < 9.9 * t) c.check(acc, "a proposal with a realistic chance is refused although the draw is 0", std::to_string(delta) + " at " + std::to_string(t));
    c.state(mc::hash_mix(delta, static_cast<uint64_t>(t * 2)));
}
MC_MODEL(cooling, "both supplied schedules at 4000 temperatures", 1)
{
    const double t = 0.25 * c.range(1, 4000);
    c.step(2);
    c.check(std::abs(linear_temperature_schedule(t) - (t - 10.0)) < 1e-9, "linear schedule does not decrease by 10", std::to_string(t));
    c.check(std::abs(geometric_temperature_schedule(t) - t * 0.99) < 1e-9, "geometric schedule does not decrease by the factor 0.99", std::to_string(t));
    c.state(static_cast<uint64_t>(t * 4));
}
