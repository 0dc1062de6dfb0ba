// Stand-in for parallel-hashmap: the same interface on the containers of the standard library.
#ifndef STANDIN_PHMAP_H
#define STANDIN_PHMAP_H
#include <functional>
#include <memory>
#include <mutex>
#include <set>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
namespace phmap
{
struct NullMutex
{
    void lock() {}
    void unlock() {}
};
namespace priv
{
template <class T> struct hash_default_hash { size_t operator()(const T& v) const { return std::hash<T>{}(v); } };
template <class T> struct hash_default_eq : std::equal_to<T> {};
}  // namespace priv
template <class K, class V, class H = priv::hash_default_hash<K>, class E = priv::hash_default_eq<K>, class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, H, E, A>
{
  public:
    using base = std::unordered_map<K, V, H, E, A>;
    using base::base;
    flat_hash_map() = default;
};
template <class K, class H = priv::hash_default_hash<K>, class E = priv::hash_default_eq<K>, class A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, H, E, A>
{
  public:
    using base = std::unordered_set<K, H, E, A>;
    using base::base;
    flat_hash_set() = default;
};
template <class K, class V, class H = priv::hash_default_hash<K>, class E = priv::hash_default_eq<K>, class A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;
template <class K, class H = priv::hash_default_hash<K>, class E = priv::hash_default_eq<K>, class A = std::allocator<K>>
using node_hash_set = flat_hash_set<K, H, E, A>;

template <class K, class V, class H = priv::hash_default_hash<K>, class E = priv::hash_default_eq<K>, class A = std::allocator<std::pair<const K, V>>,
          std::size_t N = 4, class Mutex = NullMutex>
class parallel_flat_hash_map : public std::unordered_map<K, V, H, E, A>
{
  public:
    using base = std::unordered_map<K, V, H, E, A>;
    using base::base;
    parallel_flat_hash_map() = default;
    parallel_flat_hash_map(const parallel_flat_hash_map& o) : base(o) {}
    parallel_flat_hash_map(parallel_flat_hash_map&& o) : base(std::move(o)) {}
    parallel_flat_hash_map& operator=(const parallel_flat_hash_map& o) { base::operator=(o); return *this; }
    parallel_flat_hash_map& operator=(parallel_flat_hash_map&& o) { base::operator=(std::move(o)); return *this; }
    using guard = std::lock_guard<Mutex>;
    template <class... X> auto try_emplace(X&&... x) { guard g{m}; return base::try_emplace(std::forward<X>(x)...); }
    template <class... X> auto emplace(X&&... x) { guard g{m}; return base::emplace(std::forward<X>(x)...); }
    template <class X> auto insert(X&& x) { guard g{m}; return base::insert(std::forward<X>(x)); }
    auto insert(std::pair<const K, V>&& x) { guard g{m}; return base::insert(std::move(x)); }
    template <class F> bool if_contains(const K& k, F&& f) const
    {
        guard g{m};
        const auto it = base::find(k);
        if (it == base::end()) return false;
        f(*it);
        return true;
    }
    template <class F> bool modify_if(const K& k, F&& f)
    {
        guard g{m};
        const auto it = base::find(k);
        if (it == base::end()) return false;
        f(*it);
        return true;
    }
    V& operator[](const K& k) { guard g{m}; return base::operator[](k); }
    auto find(const K& k) { guard g{m}; return base::find(k); }
    auto find(const K& k) const { guard g{m}; return base::find(k); }
    bool contains(const K& k) const { guard g{m}; return base::find(k) != base::end(); }
    std::size_t count(const K& k) const { guard g{m}; return base::count(k); }

  private:
    mutable Mutex m{};
};
template <class K, class H = priv::hash_default_hash<K>, class E = priv::hash_default_eq<K>, class A = std::allocator<K>, std::size_t N = 4, class Mutex = NullMutex>
class parallel_flat_hash_set : public std::unordered_set<K, H, E, A>
{
  public:
    using base = std::unordered_set<K, H, E, A>;
    using base::base;
    parallel_flat_hash_set() = default;
};
template <class K, class C = std::less<K>, class A = std::allocator<K>> class btree_set : public std::set<K, C, A>
{
  public:
    using std::set<K, C, A>::set;
    btree_set() = default;
};
}  // namespace phmap
#endif
