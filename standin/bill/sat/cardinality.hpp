// Stand-in for bill (lsils/bill): cardinality constraints.
#pragma once
#include "interface/common.hpp"
#include <vector>
namespace bill
{
template <typename Solver>
void at_least_one(const std::vector<var_type>& vars, Solver& solver)
{
    std::vector<lit_type> c;
    for (auto v : vars) c.emplace_back(v, positive_polarity);
    solver.add_clause(c);
}
template <typename Solver>
void at_most_one_pairwise(const std::vector<var_type>& vars, Solver& solver)
{
    for (size_t i = 0; i < vars.size(); ++i)
        for (size_t j = i + 1; j < vars.size(); ++j)
            solver.add_clause(std::vector<lit_type>{lit_type{vars[i], negative_polarity}, lit_type{vars[j], negative_polarity}});
}
}  // namespace bill
