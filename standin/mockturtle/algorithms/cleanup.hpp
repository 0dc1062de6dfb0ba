#ifndef STANDIN_MT_CLEANUP
#define STANDIN_MT_CLEANUP
#include "../traits.hpp"
#include "../utils/node_map.hpp"
#include "../views/topo_view.hpp"
#include <utility>
#include <vector>
namespace mockturtle
{
template <typename NtkDest, typename NtkSrc> std::pair<NtkDest, node_map<signal<NtkDest>, NtkSrc>> initialize_copy_network(const NtkSrc& src)
{
    node_map<signal<NtkDest>, NtkSrc> m(src);
    NtkDest                           dest;
    m[src.get_constant(false)] = dest.get_constant(false);
    if (src.get_node(src.get_constant(true)) != src.get_node(src.get_constant(false))) m[src.get_constant(true)] = dest.get_constant(true);
    src.foreach_pi([&](auto n) { m[n] = dest.create_pi(); });
    return {dest, m};
}
// copy of a node into another type of network by its kind, or by its function
template <class NtkSrc, class NtkDest> signal<NtkDest> standin_copy_node(const NtkSrc& src, NtkDest& dest, const node<NtkSrc>& n, std::vector<signal<NtkDest>> ch)
{
    if constexpr (std::is_same_v<typename NtkSrc::base_type, typename NtkDest::base_type> && has_clone_node_v<NtkDest>)
    {
        return dest.clone_node(src, n, ch);
    }
    else
    {
        if constexpr (has_is_and_v<NtkSrc>) { if (src.is_and(n)) return dest.create_and(ch[0], ch[1]); }
        if constexpr (has_is_or_v<NtkSrc>) { if (src.is_or(n)) return dest.create_or(ch[0], ch[1]); }
        if constexpr (has_is_xor_v<NtkSrc>) { if (src.is_xor(n)) return dest.create_xor(ch[0], ch[1]); }
        if constexpr (has_is_maj_v<NtkSrc>) { if (src.is_maj(n)) return dest.create_maj(ch[0], ch[1], ch[2]); }
        if constexpr (has_is_ite_v<NtkSrc>) { if (src.is_ite(n)) return dest.create_ite(ch[0], ch[1], ch[2]); }
        if constexpr (has_is_xor3_v<NtkSrc>) { if (src.is_xor3(n)) return dest.create_xor3(ch[0], ch[1], ch[2]); }
        if constexpr (has_node_function_v<NtkSrc>)
        {
            const auto f = src.node_function(n);
            if constexpr (has_create_node_v<NtkDest>) return dest.create_node(ch, f);
            else
            {
                auto r = dest.get_constant(false);
                for (uint64_t i = 0; i < f.num_bits(); ++i)
                    if (kitty::get_bit(f, i))
                    {
                        auto c = dest.get_constant(true);
                        for (std::size_t j = 0; j < ch.size(); ++j) c = dest.create_and(c, ((i >> j) & 1) ? ch[j] : dest.create_not(ch[j]));
                        r = dest.create_or(r, c);
                    }
                return r;
            }
        }
        std::abort();
    }
}
template <typename NtkSrc, typename NtkDest, typename It> std::vector<signal<NtkDest>> cleanup_dangling(const NtkSrc& ntk, NtkDest& dest, It begin, It end)
{
    node_map<signal<NtkDest>, NtkSrc> m(ntk);
    m[ntk.get_constant(false)] = dest.get_constant(false);
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false))) m[ntk.get_constant(true)] = dest.get_constant(true);
    ntk.foreach_pi([&](auto n) {
        m[n] = *begin;
        if (begin != end) ++begin;
    });
    topo_view<NtkSrc>{ntk}.foreach_node([&](auto n, auto) {
        if (ntk.is_constant(n) || ntk.is_pi(n)) return;
        std::vector<signal<NtkDest>> ch;
        ntk.foreach_fanin(n, [&](auto f) { ch.push_back(ntk.is_complemented(f) ? dest.create_not(m[ntk.get_node(f)]) : m[ntk.get_node(f)]); });
        m[n] = standin_copy_node(ntk, dest, n, ch);
    });
    std::vector<signal<NtkDest>> r;
    ntk.foreach_po([&](auto f) { r.push_back(ntk.is_complemented(f) ? dest.create_not(m[ntk.get_node(f)]) : m[ntk.get_node(f)]); });
    return r;
}
template <class NtkSrc, class NtkDest = NtkSrc> NtkDest cleanup_dangling(const NtkSrc& ntk, bool = false, bool = false)
{
    NtkDest                      dest;
    std::vector<signal<NtkDest>> pis;
    const auto copy_name = [&](const auto& s, const auto& t) {
        if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
            if (ntk.has_name(s)) dest.set_name(t, ntk.get_name(s));
    };
    if constexpr (has_get_network_name_v<NtkSrc> && has_set_network_name_v<NtkDest>) dest.set_network_name(ntk.get_network_name());
    ntk.foreach_pi([&](auto n) {
        pis.push_back(dest.create_pi());
        copy_name(ntk.make_signal(n), pis.back());
    });
    const auto pos = cleanup_dangling(ntk, dest, pis.begin(), pis.end());
    for (const auto& p : pos) dest.create_po(p);
    if constexpr (has_has_output_name_v<NtkSrc> && has_get_output_name_v<NtkSrc> && has_set_output_name_v<NtkDest>)
        ntk.foreach_po([&](auto, auto i) { if (ntk.has_output_name(i)) dest.set_output_name(i, ntk.get_output_name(i)); });
    return dest;
}
}  // namespace mockturtle
#endif
