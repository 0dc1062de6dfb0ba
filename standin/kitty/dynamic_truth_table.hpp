// Stand-in for kitty: truth tables with the interface used by the library.
#ifndef STANDIN_KITTY_DTT
#define STANDIN_KITTY_DTT
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <functional>
#include <sstream>
#include <ostream>
#include <string>
#include <type_traits>
#include <vector>
namespace kitty
{
class dynamic_truth_table
{
  public:
    explicit dynamic_truth_table(uint32_t n) : _bits(n <= 6 ? 1u : (1u << (n - 6))), _num_vars(n) {}
    dynamic_truth_table() : _bits(1), _num_vars(0) {}
    [[nodiscard]] dynamic_truth_table construct() const { return dynamic_truth_table(_num_vars); }
    [[nodiscard]] auto num_vars() const noexcept { return _num_vars; }
    [[nodiscard]] auto num_blocks() const noexcept { return _bits.size(); }
    [[nodiscard]] uint64_t num_bits() const noexcept { return uint64_t(1) << _num_vars; }
    auto begin() noexcept { return _bits.begin(); }
    auto end() noexcept { return _bits.end(); }
    auto begin() const noexcept { return _bits.begin(); }
    auto end() const noexcept { return _bits.end(); }
    auto cbegin() const noexcept { return _bits.cbegin(); }
    auto cend() const noexcept { return _bits.cend(); }
    void mask_bits() noexcept { if (_num_vars < 6) _bits[0] &= (uint64_t(1) << (1u << _num_vars)) - 1; }
    std::vector<uint64_t> _bits;
    uint32_t              _num_vars;
};
template <class T> struct is_truth_table : std::false_type {};
template <> struct is_truth_table<dynamic_truth_table> : std::true_type {};
template <class T> inline constexpr bool is_truth_table_v = is_truth_table<T>::value;

inline uint64_t get_bit(const dynamic_truth_table& t, uint64_t i) { return (t._bits[i >> 6] >> (i & 63)) & 1; }
inline void set_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] |= uint64_t(1) << (i & 63); }
inline void clear_bit(dynamic_truth_table& t, uint64_t i) { t._bits[i >> 6] &= ~(uint64_t(1) << (i & 63)); }
inline void clear(dynamic_truth_table& t) { std::fill(t._bits.begin(), t._bits.end(), 0); }
inline uint64_t get_block(const dynamic_truth_table& t, uint64_t i) { return t._bits[i]; }
template <class F> dynamic_truth_table standin_bin(const dynamic_truth_table& a, const dynamic_truth_table& b, F&& f)
{
    assert(a._num_vars == b._num_vars);
    auto r = a.construct();
    for (std::size_t i = 0; i < r._bits.size(); ++i) r._bits[i] = f(a._bits[i], b._bits[i]);
    r.mask_bits();
    return r;
}
inline dynamic_truth_table unary_not(const dynamic_truth_table& a) { return standin_bin(a, a, [](uint64_t x, uint64_t) { return ~x; }); }
inline dynamic_truth_table binary_and(const dynamic_truth_table& a, const dynamic_truth_table& b) { return standin_bin(a, b, [](uint64_t x, uint64_t y) { return x & y; }); }
inline dynamic_truth_table binary_or(const dynamic_truth_table& a, const dynamic_truth_table& b) { return standin_bin(a, b, [](uint64_t x, uint64_t y) { return x | y; }); }
inline dynamic_truth_table binary_xor(const dynamic_truth_table& a, const dynamic_truth_table& b) { return standin_bin(a, b, [](uint64_t x, uint64_t y) { return x ^ y; }); }
inline dynamic_truth_table ternary_majority(const dynamic_truth_table& a, const dynamic_truth_table& b, const dynamic_truth_table& c)
{
    return binary_or(binary_and(a, b), binary_and(c, binary_or(a, b)));
}
inline dynamic_truth_table ternary_ite(const dynamic_truth_table& a, const dynamic_truth_table& b, const dynamic_truth_table& c)
{
    return binary_or(binary_and(a, b), binary_and(unary_not(a), c));
}
inline bool equal(const dynamic_truth_table& a, const dynamic_truth_table& b) { return a._num_vars == b._num_vars && a._bits == b._bits; }
inline bool less_than(const dynamic_truth_table& a, const dynamic_truth_table& b)
{
    return std::lexicographical_compare(a._bits.rbegin(), a._bits.rend(), b._bits.rbegin(), b._bits.rend());
}
inline dynamic_truth_table operator~(const dynamic_truth_table& a) { return unary_not(a); }
inline dynamic_truth_table operator&(const dynamic_truth_table& a, const dynamic_truth_table& b) { return binary_and(a, b); }
inline dynamic_truth_table operator|(const dynamic_truth_table& a, const dynamic_truth_table& b) { return binary_or(a, b); }
inline dynamic_truth_table operator^(const dynamic_truth_table& a, const dynamic_truth_table& b) { return binary_xor(a, b); }
inline bool operator==(const dynamic_truth_table& a, const dynamic_truth_table& b) { return equal(a, b); }
inline bool operator!=(const dynamic_truth_table& a, const dynamic_truth_table& b) { return !equal(a, b); }
inline bool operator<(const dynamic_truth_table& a, const dynamic_truth_table& b) { return less_than(a, b); }
inline bool is_const0(const dynamic_truth_table& t) { return std::all_of(t._bits.begin(), t._bits.end(), [](uint64_t b) { return b == 0; }); }
inline uint64_t count_ones(const dynamic_truth_table& t)
{
    uint64_t n = 0;
    for (auto b : t._bits) n += static_cast<uint64_t>(__builtin_popcountll(b));
    return n;
}
template <class It> void create_from_words(dynamic_truth_table& t, It begin, It end)
{
    clear(t);
    auto it = t._bits.begin();
    while (it != t._bits.end() && begin != end) *it++ = *begin++;
    t.mask_bits();
}
inline void create_nth_var(dynamic_truth_table& t, uint32_t v, bool complement = false)
{
    clear(t);
    for (uint64_t i = 0; i < t.num_bits(); ++i) if ((((i >> v) & 1) != 0) != complement) set_bit(t, i);
}
inline void create_from_binary_string(dynamic_truth_table& t, const std::string& s)
{
    assert(s.size() == t.num_bits());
    clear(t);
    auto j = t.num_bits() - 1;
    for (std::size_t i = 0; i < s.size(); ++i, --j) if (s[i] == '1') set_bit(t, j);
}
inline int standin_hex(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
inline void create_from_hex_string(dynamic_truth_table& t, const std::string& s)
{
    if (t.num_vars() < 2)
    {
        clear(t);
        const auto i = static_cast<uint64_t>(standin_hex(s[0]));
        if (i & 1) set_bit(t, 0);
        if (t.num_vars() == 1 && (i & 2)) set_bit(t, 1);
        return;
    }
    assert((s.size() << 2u) == t.num_bits());
    clear(t);
    auto j = t.num_bits() - 1;
    for (const char c : s)
    {
        const auto i = standin_hex(c);
        for (int b = 3; b >= 0; --b, --j) if ((i >> b) & 1) set_bit(t, j);
    }
}
inline std::string to_binary(const dynamic_truth_table& t)
{
    std::string s;
    for (uint64_t i = t.num_bits(); i > 0; --i) s += get_bit(t, i - 1) ? '1' : '0';
    return s;
}
inline std::string to_hex(const dynamic_truth_table& t)
{
    static const char* d = "0123456789abcdef";
    if (t.num_vars() < 2) return std::string(1, d[t._bits[0] & 15]);
    std::string s;
    for (uint64_t i = t.num_bits(); i > 0; i -= 4)
        s += d[get_bit(t, i - 1) * 8 + get_bit(t, i - 2) * 4 + get_bit(t, i - 3) * 2 + get_bit(t, i - 4)];
    return s;
}
inline void print_binary(const dynamic_truth_table& t, std::ostream& os) { os << to_binary(t); }
inline void print_hex(const dynamic_truth_table& t, std::ostream& os) { os << to_hex(t); }
template <class TT> struct hash;
template <> struct hash<dynamic_truth_table>
{
    std::size_t operator()(const dynamic_truth_table& t) const
    {
        std::size_t h = t._num_vars;
        for (auto b : t._bits) h = (h ^ b) * 0x9e3779b97f4a7c15ull + (h >> 29);
        return h;
    }
};
inline void create_random(dynamic_truth_table& t, uint64_t seed = 1)
{
    clear(t);
    for (auto& b : t._bits) b = seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    t.mask_bits();
}
// expressions of kitty: a..p, ! (negation), (..) and, {..} or, [..] xor, <...> majority
inline bool create_from_expression(dynamic_truth_table& t, const std::string& e)
{
    std::size_t p = 0;
    std::function<dynamic_truth_table()> term = [&]() -> dynamic_truth_table {
        dynamic_truth_table r(t.num_vars());
        const char c = e.at(p++);
        if (c == '!') return ~term();
        if (c == '0') return r;
        if (c == '1') return ~r;
        if (c >= 'a' && c <= 'p') { create_nth_var(r, static_cast<uint32_t>(c - 'a')); return r; }
        const char cl = c == '(' ? ')' : c == '{' ? '}' : c == '[' ? ']' : '>';
        std::vector<dynamic_truth_table> a;
        while (e.at(p) != cl) a.push_back(term());
        ++p;
        if (c == '<') return ternary_majority(a.at(0), a.at(1), a.at(2));
        r = a.at(0);
        for (std::size_t i = 1; i < a.size(); ++i) r = c == '(' ? r & a[i] : c == '{' ? r | a[i] : r ^ a[i];
        return r;
    };
    t = term();
    return true;
}
}  // namespace kitty
namespace std
{
template <> struct hash<kitty::dynamic_truth_table> : kitty::hash<kitty::dynamic_truth_table> {};
}
#endif
