#ifndef STANDIN_MT_SIM
#define STANDIN_MT_SIM
#include "../traits.hpp"
#include "../utils/node_map.hpp"
#include <map>
#include <vector>
namespace mockturtle
{
template <class TT> class default_simulator
{
  public:
    explicit default_simulator(unsigned n = 0) : num(n) {}
    unsigned num;
};
template <class TT, class Ntk> std::vector<TT> simulate(const Ntk& ntk, const default_simulator<TT>& sim = {})
{
    std::map<node<Ntk>, TT> v;
    const auto nv = std::max<unsigned>(sim.num, static_cast<unsigned>(ntk.num_pis()));
    const TT   zero(nv);
    const auto cf = ntk.get_node(ntk.get_constant(false)), ct = ntk.get_node(ntk.get_constant(true));
    v[cf] = zero;
    if (ct != cf) v[ct] = ~zero;
    ntk.foreach_pi([&](auto n, auto i) {
        TT t(nv);
        kitty::create_nth_var(t, static_cast<uint32_t>(i));
        v[n] = t;
    });
    const auto rec = [&](auto&& self, const node<Ntk>& n) -> TT {
        if (const auto it = v.find(n); it != v.end()) return it->second;
        std::vector<TT> in;
        ntk.foreach_fanin(n, [&](auto f) { in.push_back(self(self, ntk.get_node(f))); });
        const TT r = ntk.compute(n, in.begin(), in.end());
        v[n] = r;
        return r;
    };
    std::vector<TT> out;
    ntk.foreach_po([&](auto f) {
        const auto r = rec(rec, ntk.get_node(f));
        out.push_back(ntk.is_complemented(f) ? ~r : r);
    });
    return out;
}
}  // namespace mockturtle
#endif
