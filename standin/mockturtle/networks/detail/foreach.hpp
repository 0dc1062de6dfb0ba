#ifndef STANDIN_MT_FOREACH
#define STANDIN_MT_FOREACH
#include <cstdint>
#include <functional>
#include <type_traits>
#include <iterator>
#include <utility>
namespace mockturtle::detail
{
template <class Fn, class E, class R, class = void> struct is_callable_with_index : std::false_type {};
template <class Fn, class E, class R>
struct is_callable_with_index<Fn, E, R, std::enable_if_t<std::is_same_v<std::invoke_result_t<Fn&, const E&, uint32_t&>, R>>> : std::true_type {};
template <class Fn, class E, class R> inline constexpr bool is_callable_with_index_v = is_callable_with_index<Fn, E, R>::value;
template <class Fn, class E, class R, class = void> struct is_callable_without_index : std::false_type {};
template <class Fn, class E, class R>
struct is_callable_without_index<Fn, E, R, std::enable_if_t<std::is_same_v<std::invoke_result_t<Fn&, const E&>, R>>> : std::true_type {};
template <class Fn, class E, class R> inline constexpr bool is_callable_without_index_v = is_callable_without_index<Fn, E, R>::value;

// the one loop behind all the variants: false from the function ends it
template <class It, class E, class Pred, class Tr, class Fn>
It standin_foreach(It begin, It end, Pred&& pred, Tr&& tr, Fn&& fn, uint32_t index)
{
    static_assert(is_callable_with_index_v<Fn, E, void> || is_callable_without_index_v<Fn, E, void> || is_callable_with_index_v<Fn, E, bool> ||
                  is_callable_without_index_v<Fn, E, bool>);
    for (; begin != end;)
    {
        if (!pred(*begin))
        {
            ++begin;
            continue;
        }
        if constexpr (is_callable_without_index_v<Fn, E, bool>)
        {
            if (!fn(tr(*begin++))) return begin;
        }
        else if constexpr (is_callable_with_index_v<Fn, E, bool>)
        {
            if (!fn(tr(*begin++), index)) return begin;
            ++index;
        }
        else if constexpr (is_callable_without_index_v<Fn, E, void>)
        {
            fn(tr(*begin++));
        }
        else
        {
            fn(tr(*begin++), index);
            ++index;
        }
    }
    return begin;
}
template <class It, class E = typename std::iterator_traits<It>::value_type, class Fn>
It foreach_element(It b, It e, Fn&& fn, uint32_t off = 0)
{
    return standin_foreach<It, E>(b, e, [](const auto&) { return true; }, [](const auto& x) -> const auto& { return x; }, fn, off);
}
template <class It, class E = typename std::iterator_traits<It>::value_type, class Pred, class Fn>
It foreach_element_if(It b, It e, Pred&& p, Fn&& fn, uint32_t off = 0)
{
    return standin_foreach<It, E>(b, e, p, [](const auto& x) -> const auto& { return x; }, fn, off);
}
template <class It, class E, class Tr, class Fn>
It foreach_element_transform(It b, It e, Tr&& tr, Fn&& fn, uint32_t off = 0)
{
    return standin_foreach<It, E>(b, e, [](const auto&) { return true; }, tr, fn, off);
}
}  // namespace mockturtle::detail
#include "../../utils/algorithm.hpp"
#endif
