#ifndef STANDIN_MT_ALGORITHM
#define STANDIN_MT_ALGORITHM
#include <cstdint>
#include <iterator>
#include <vector>
namespace mockturtle
{
template <typename T, class It, class Fn> T tree_reduce_rec(It first, uint64_t size, Fn&& fn)
{
    if (size == 1) return *first;
    return fn(tree_reduce_rec<T>(first, size / 2, fn), tree_reduce_rec<T>(first + static_cast<long>(size / 2), size - size / 2, fn));
}
template <class It, typename T, class Fn> T tree_reduce(It first, It last, const T& init, Fn&& fn)
{
    const auto n = static_cast<uint64_t>(std::distance(first, last));
    return n == 0 ? init : tree_reduce_rec<T>(first, n, fn);
}
template <typename T> struct range_iterator
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    T v{};
    T operator*() const { return v; }
    range_iterator& operator++() { ++v; return *this; }
    range_iterator operator++(int) { auto c = *this; ++v; return c; }
    bool operator==(const range_iterator& o) const { return v == o.v; }
    bool operator!=(const range_iterator& o) const { return v != o.v; }
};
template <typename T> struct range_t
{
    T b, e;
    using iterator = range_iterator<T>;
    auto begin() const { return range_iterator<T>{b}; }
    auto end() const { return range_iterator<T>{e}; }
};
template <typename T> range_t<T> range(T n) { return {T{}, n}; }
template <typename T> range_t<T> range(T b, T e) { return {b, e}; }
}  // namespace mockturtle
#endif
