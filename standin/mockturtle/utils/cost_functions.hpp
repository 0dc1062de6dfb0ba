#ifndef STANDIN_MT_COST
#define STANDIN_MT_COST
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk> struct unit_cost
{
    uint32_t operator()(const Ntk&, const node<Ntk>&) const { return 1u; }
};
template <class Ntk> struct mc_cost
{
    uint32_t operator()(const Ntk& ntk, const node<Ntk>& n) const
    {
        if constexpr (has_is_xor_v<Ntk>) { if (ntk.is_xor(n)) return 0u; }
        if constexpr (has_is_xor3_v<Ntk>) { if (ntk.is_xor3(n)) return 0u; }
        return ntk.is_pi(n) || ntk.is_constant(n) ? 0u : 1u;
    }
};
}  // namespace mockturtle
#endif
