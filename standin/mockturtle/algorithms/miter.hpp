#ifndef STANDIN_MT_MITER
#define STANDIN_MT_MITER
#include "cleanup.hpp"
#include <optional>
namespace mockturtle
{
template <class NtkDest, class A, class B> std::optional<NtkDest> miter(const A& a, const B& b)
{
    if (a.num_pis() != b.num_pis() || a.num_pos() != b.num_pos()) return std::nullopt;
    NtkDest dest;
    std::vector<signal<NtkDest>> pis;
    for (std::size_t i = 0; i < a.num_pis(); ++i) pis.push_back(dest.create_pi());
    const auto p1 = cleanup_dangling(a, dest, pis.begin(), pis.end());
    const auto p2 = cleanup_dangling(b, dest, pis.begin(), pis.end());
    std::vector<signal<NtkDest>> x;
    for (std::size_t i = 0; i < p1.size(); ++i) x.push_back(dest.create_xor(p1[i], p2[i]));
    dest.create_po(dest.create_nary_or(x));
    return dest;
}
}  // namespace mockturtle
#endif
