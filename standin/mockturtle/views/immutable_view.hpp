#ifndef STANDIN_MT_IMMUTABLE
#define STANDIN_MT_IMMUTABLE
#include "../traits.hpp"
namespace mockturtle
{
template <typename Ntk> class immutable_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    immutable_view(const Ntk& n) : Ntk(n) {}
    signal create_pi()                                                   = delete;
    void   create_po(signal s)                                           = delete;
    signal create_not(const signal& f)                                   = delete;
    signal create_and(const signal& f, const signal& g)                  = delete;
    signal create_or(const signal& f, const signal& g)                   = delete;
    signal create_xor(const signal& f, const signal& g)                  = delete;
    signal create_maj(const signal& f, const signal& g, const signal& h) = delete;
    signal create_node(const std::vector<signal>& f, const kitty::dynamic_truth_table&) = delete;
    void   substitute_node(const node& o, node const& n)                 = delete;
};
}  // namespace mockturtle
#endif
