#ifndef STANDIN_MT_EC
#define STANDIN_MT_EC
#include "../utils/stopwatch.hpp"
#include "simulation.hpp"
#include <optional>
namespace mockturtle
{
struct equivalence_checking_params
{
    uint32_t conflict_limit{0};
    bool     functional_reduction{true}, verbose{false};
};
struct equivalence_checking_stats
{
    stopwatch<>::duration time_total{0};
    std::vector<bool>     counter_example;
    void report() const {}
};
// the SAT call of mockturtle is replaced by simulation of the miter on all inputs
template <class Ntk> std::optional<bool> equivalence_checking(const Ntk& m, const equivalence_checking_params& = {}, equivalence_checking_stats* pst = nullptr)
{
    const auto t = simulate<kitty::dynamic_truth_table>(m);
    for (uint64_t i = 0; i < t.at(0).num_bits(); ++i)
        if (kitty::get_bit(t[0], i))
        {
            if (pst)
            {
                pst->counter_example.clear();
                for (uint32_t k = 0; k < m.num_pis(); ++k) pst->counter_example.push_back((i >> k) & 1);
            }
            return false;
        }
    return true;
}
}  // namespace mockturtle
#endif
