// Small logic networks chosen by the explorer, with an evaluator of their own.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include "mc.hpp"
#include <cmath>
#include <fiction/types.hpp>
#include <fiction/networks/technology_network.hpp>
#include <mockturtle/views/names_view.hpp>
#include <functional>
#include <map>
#include <string>
#include <vector>

#define CK(cond, ...) do { if (!(cond)) c.check(false, __VA_ARGS__); } while (0)

namespace net
{
enum kind { BUF, NOT, AND, NAND, OR, NOR, LT, GE, GT, LE, XOR, XNOR, MAJ, ITE, XOR3, DOT, AND3, XORAND, ORAND, ONEHOT, GAMBLE, ANDXOR, KINDS };
inline const char* name_of(int k)
{
    static const char* n[] = {"buf", "not", "and", "nand", "or", "nor", "lt", "ge", "gt", "le", "xor", "xnor", "maj", "ite", "xor3", "dot", "and3", "xor_and", "or_and", "onehot", "gamble", "and_xor"};
    return n[k];
}
inline int arity(int k) { return k <= NOT ? 1 : k <= XNOR ? 2 : 3; }
// the function of a gate, from its name
inline bool value(int k, bool a, bool b = false, bool c = false)
{
    switch (k)
    {
        case BUF: return a;
        case NOT: return !a;
        case AND: return a && b;
        case NAND: return !(a && b);
        case OR: return a || b;
        case NOR: return !(a || b);
        case LT: return !a && b;
        case GE: return a || !b;
        case GT: return a && !b;
        case LE: return !a || b;
        case XOR: return a != b;
        case XNOR: return a == b;
        case MAJ: return a + b + c >= 2;
        case ITE: return a ? b : c;
        case XOR3: return (a + b + c) % 2 == 1;
        case DOT: return a != (c || (a && b));
        case AND3: return a && b && c;
        case XORAND: return a && (b != c);
        case ORAND: return a && (b || c);
        case ONEHOT: return a + b + c == 1;
        case GAMBLE: return a == b && b == c;
        case ANDXOR: return a != (b && c);
        default: return false;
    }
}
inline uint64_t bits(int k)
{
    uint64_t r = 0;
    for (int i = 0; i < (1 << arity(k)); ++i) if (value(k, i & 1, (i >> 1) & 1, (i >> 2) & 1)) r |= 1ull << i;
    return r;
}
template <class Ntk>
typename Ntk::signal create(Ntk& n, int k, const std::vector<typename Ntk::signal>& f)
{
    switch (k)
    {
        case BUF: return n.create_buf(f[0]);
        case NOT: return n.create_not(f[0]);
        case AND: return n.create_and(f[0], f[1]);
        case NAND: return n.create_nand(f[0], f[1]);
        case OR: return n.create_or(f[0], f[1]);
        case NOR: return n.create_nor(f[0], f[1]);
        case LT: return n.create_lt(f[0], f[1]);
        case GE: if constexpr (requires { n.create_ge(f[0], f[0]); }) return n.create_ge(f[0], f[1]); else return n.create_le(f[1], f[0]);
        case GT: if constexpr (requires { n.create_gt(f[0], f[0]); }) return n.create_gt(f[0], f[1]); else return n.create_lt(f[1], f[0]);
        case LE: return n.create_le(f[0], f[1]);
        case XOR: return n.create_xor(f[0], f[1]);
        case XNOR: return n.create_xnor(f[0], f[1]);
        case MAJ: return n.create_maj(f[0], f[1], f[2]);
        case ITE: return n.create_ite(f[0], f[1], f[2]);
        case XOR3: if constexpr (requires { n.create_xor3(f[0], f[0], f[0]); }) return n.create_xor3(f[0], f[1], f[2]); else return n.create_xor(n.create_xor(f[0], f[1]), f[2]);
        default:
        {
            if constexpr (requires { n.create_dot(f[0], f[0], f[0]); })
            {
                if (k == DOT) return n.create_dot(f[0], f[1], f[2]);
            kitty::dynamic_truth_table t(3u);
            const uint64_t w = bits(k);
            kitty::create_from_words(t, &w, &w + 1);
            return n.create_node(f, t);
            }
            else mc::ctx::internal("gate not available");
        }
    }
}
template <class Ntk>
bool is_kind(const Ntk& n, uint64_t x, int k)
{
    switch (k)
    {
        case BUF: return n.is_buf(x);
        case NOT: return n.is_inv(x);
        case AND: return n.is_and(x);
        case NAND: return n.is_nand(x);
        case OR: return n.is_or(x);
        case NOR: return n.is_nor(x);
        case LT: return n.is_lt(x);
        case GE: return n.is_ge(x);
        case GT: return n.is_gt(x);
        case LE: return n.is_le(x);
        case XOR: return n.is_xor(x);
        case XNOR: return n.is_xnor(x);
        case MAJ: return n.is_maj(x);
        case ITE: return n.is_ite(x);
        case XOR3: return n.is_xor3(x);
        case DOT: return n.is_dot(x);
        case AND3: return n.is_and3(x);
        case XORAND: return n.is_xor_and(x);
        case ORAND: return n.is_or_and(x);
        case ONEHOT: return n.is_onehot(x);
        case GAMBLE: return n.is_gamble(x);
        case ANDXOR: return n.is_and_xor(x);
        default: return false;
    }
}
// ---- a network: signals 0 and 1 are the constants, then the inputs, then the gates
struct gate
{
    int              k;
    std::vector<int> in;
};
struct desc
{
    int               pis{0};
    std::vector<gate> gates{};
    std::vector<int>  pos{};
    int  signals() const { return 2 + pis + static_cast<int>(gates.size()); }
    bool is_gate(int s) const { return s >= 2 + pis; }
    const gate& at(int s) const { return gates[static_cast<std::size_t>(s - 2 - pis)]; }
    std::string str() const
    {
        std::string r = std::to_string(pis) + " inputs;";
        const auto  n = [&](int s) { return s < 2 ? std::to_string(s) : s < 2 + pis ? "x" + std::to_string(s - 2) : "g" + std::to_string(s - 2 - pis); };
        for (std::size_t i = 0; i < gates.size(); ++i)
        {
            r += " g" + std::to_string(i) + "=" + name_of(gates[i].k) + "(";
            for (std::size_t j = 0; j < gates[i].in.size(); ++j) r += (j ? "," : "") + n(gates[i].in[j]);
            r += ")";
        }
        r += "; outputs";
        for (auto p : pos) r += " " + n(p);
        return r;
    }
    std::vector<uint64_t> eval() const
    {
        std::vector<uint64_t> v(static_cast<std::size_t>(signals()), 0);
        const int             n = 1 << pis;
        for (int x = 0; x < n; ++x)
        {
            std::vector<bool> b(static_cast<std::size_t>(signals()));
            b[1] = true;
            for (int i = 0; i < pis; ++i) b[2 + i] = (x >> i) & 1;
            for (std::size_t g = 0; g < gates.size(); ++g)
            {
                const auto& q = gates[g];
                b[2 + pis + g] = value(q.k, b[q.in[0]], q.in.size() > 1 && b[q.in[1]], q.in.size() > 2 && b[q.in[2]]);
            }
            for (std::size_t s = 0; s < b.size(); ++s) if (b[s]) v[s] |= 1ull << x;
        }
        return v;
    }
    std::vector<uint64_t> outputs() const
    {
        const auto            v = eval();
        std::vector<uint64_t> r;
        for (auto p : pos) r.push_back(v[p]);
        return r;
    }
    std::vector<bool> live() const  // signals some output depends on
    {
        std::vector<bool> l(static_cast<std::size_t>(signals()));
        for (auto p : pos) l[p] = true;
        for (int s = signals() - 1; s >= 2 + pis; --s) if (l[s]) for (auto i : at(s).in) l[i] = true;
        return l;
    }
    bool all_live() const
    {
        const auto l = live();
        for (int s = 2; s < signals(); ++s) if (!l[s]) return false;
        return true;
    }
};
struct bound
{
    int              pis_lo{1}, pis_hi{2}, gates_lo{0}, gates_hi{2};
    std::vector<int> kinds{};
    int              pos_lo{1}, pos_hi{1};
    bool             constants{false};   // as fanins and outputs
    bool             live_gates{false};  // only networks all of whose gates reach an output
    bool             live_inputs{false};
    bool             distinct_fanins{false};
};
inline desc choose(mc::ctx& c, const bound& b)
{
    desc d;
    // the first choice (the one that is sharded): the first two fanins of the first gate, inputs, gates, type of the first gate
    const int o  = b.constants ? 0 : 2;
    const int np = b.pis_hi - b.pis_lo + 1, ng = b.gates_hi - b.gates_lo + 1, nk = static_cast<int>(b.kinds.size()), nf = b.pis_hi + 2 - o;
    int       f  = c.choose(nf * nf * np * ng * nk);
    const int f0 = f % nf, f1 = f / nf % nf;
    f /= nf * nf;
    d.pis       = b.pis_lo + f % np;
    const int g = b.gates_hi - f / np % ng;
    if (g == 0 && (f / np / ng > 0 || f0 > 0 || f1 > 0)) c.prune();
    for (int i = 0; i < g; ++i)
    {
        gate q{i == 0 ? b.kinds[f / np / ng] : c.pick(b.kinds), {}};
        if (i == 0 && ((arity(q.k) < 2 && f1 > 0) || (arity(q.k) < 1 && f0 > 0))) c.prune();
        for (int j = 0; j < arity(q.k); ++j)
        {
            q.in.push_back(i == 0 && j < 2 ? o + (j == 0 ? f0 : f1) : c.range(o, d.signals() - 1));
            if (q.in[j] >= d.signals()) c.prune();
            if (b.distinct_fanins) for (int k = 0; k < j; ++k) if (q.in[k] == q.in[j]) c.prune();
        }
        d.gates.push_back(q);
    }
    const int p = c.range(b.pos_lo, b.pos_hi);
    for (int i = 0; i < p; ++i) d.pos.push_back(c.range(o, d.signals() - 1));
    if (b.live_gates || b.live_inputs)
    {
        const auto l = d.live();
        for (int s = 2; s < d.signals(); ++s) if (!l[s] && (d.is_gate(s) ? b.live_gates : b.live_inputs)) c.prune();
    }
    return d;
}
template <class Ntk>
Ntk build(const desc& d, std::vector<typename Ntk::signal>* sig = nullptr)
{
    Ntk                               n{};
    std::vector<typename Ntk::signal> s{n.get_constant(false), n.get_constant(true)};
    for (int i = 0; i < d.pis; ++i) s.push_back(n.create_pi());
    for (const auto& g : d.gates)
    {
        std::vector<typename Ntk::signal> f;
        for (auto i : g.in) f.push_back(s[i]);
        s.push_back(create(n, g.k, f));
    }
    for (auto p : d.pos) n.create_po(s[p]);
    if (sig != nullptr) *sig = s;
    return n;
}
// names for everything that can be named
template <class Ntk>
void name(Ntk& n)
{
    n.set_network_name("net");
    int k = 0;
    n.foreach_pi([&](auto const& x) { n.set_name(n.make_signal(x), "in" + std::to_string(k++)); });
    k = 0;
    n.foreach_po([&](auto const&) { n.set_output_name(static_cast<uint32_t>(k), "out" + std::to_string(k)); ++k; });
}
template <class Ntk>
std::string name_errors(const Ntk& n, int pis, int pos)
{
    if (n.get_network_name() != "net") return "the network is called '" + n.get_network_name() + "'";
    for (int i = 0; i < pis; ++i)
    {
        const auto s = n.make_signal(n.pi_at(static_cast<uint32_t>(i)));
        if (!n.has_name(s) || n.get_name(s) != "in" + std::to_string(i)) return "input " + std::to_string(i) + " lost its name";
    }
    for (int i = 0; i < pos; ++i)
        if (!n.has_output_name(static_cast<uint32_t>(i)) || n.get_output_name(static_cast<uint32_t>(i)) != "out" + std::to_string(i)) return "output " + std::to_string(i) + " lost its name";
    return "";
}
// evaluates any network by walking its fanins from the outputs
template <class Ntk>
struct walker
{
    const Ntk&                   n;
    int                          pis{0};
    std::map<uint64_t, uint64_t> val{};
    std::map<uint64_t, int>      lvl{};
    std::string                  error{};
    explicit walker(const Ntk& k) : n{k}
    {
        n.foreach_pi([&](auto const&) { ++pis; });
        const uint64_t all = pis >= 6 ? ~0ull : (1ull << (1 << pis)) - 1;
        val[n.get_node(n.get_constant(false))] = 0;
        if (n.get_node(n.get_constant(true)) != n.get_node(n.get_constant(false))) val[n.get_node(n.get_constant(true))] = all;
        int i = 0;
        n.foreach_pi([&](auto const& x)
                     {
                         uint64_t w = 0;
                         for (int p = 0; p < (1 << pis); ++p) if ((p >> i) & 1) w |= 1ull << p;
                         if (val.count(x)) error = "an input is listed twice or is a constant";
                         val[x] = w;
                         lvl[x] = 0;
                         ++i;
                     });
    }
    uint64_t ones() const { return pis >= 6 ? ~0ull : (1ull << (1 << pis)) - 1; }
    uint64_t node(uint64_t x, int depth = 0)
    {
        if (const auto it = val.find(x); it != val.end()) return it->second;
        if (depth > 200)
        {
            error = "the network is cyclic";
            return 0;
        }
        std::vector<uint64_t> f;
        n.foreach_fanin(x, [&](auto const& s) { f.push_back(signal(s, depth + 1)); });
        const auto t = n.node_function(x);
        if (t.num_vars() != f.size()) error = "a gate with " + std::to_string(f.size()) + " fanins has a function of " + std::to_string(t.num_vars()) + " variables";
        uint64_t r = 0;
        for (int p = 0; p < (1 << pis); ++p)
        {
            uint64_t a = 0;
            for (std::size_t i = 0; i < f.size(); ++i) a |= ((f[i] >> p) & 1) << i;
            if (error.empty() && kitty::get_bit(t, a)) r |= 1ull << p;
        }
        return val[x] = r;
    }
    template <class S> uint64_t signal(const S& s, int depth = 0) { return n.is_complemented(s) ? ~node(n.get_node(s), depth) & ones() : node(n.get_node(s), depth); }
    std::vector<uint64_t> outputs()
    {
        std::vector<uint64_t> r;
        n.foreach_po([&](auto const& s) { r.push_back(signal(s)); });
        return r;
    }
};
template <class Ntk>
std::string function_errors(const Ntk& n, const desc& d)
{
    walker<Ntk> w(n);
    if (w.pis != d.pis) return "it has " + std::to_string(w.pis) + " inputs instead of " + std::to_string(d.pis);
    const auto o = w.outputs();
    if (!w.error.empty()) return w.error;
    const auto e = d.outputs();
    if (o.size() != e.size()) return "it has " + std::to_string(o.size()) + " outputs instead of " + std::to_string(e.size());
    for (std::size_t i = 0; i < e.size(); ++i) if (o[i] != e[i]) return "output " + std::to_string(i) + " computes another function";
    return "";
}
template <class Ntk>
std::string dump(const Ntk& n)
{
    std::string r;
    n.foreach_gate([&](auto const& g)
                   {
                       r += " " + std::to_string(g) + ":" + kitty::to_hex(n.node_function(g)) + "(";
                       n.foreach_fanin(g, [&](auto const& s) { r += std::string{n.is_complemented(s) ? "!" : ""} + std::to_string(n.get_node(s)) + ","; });
                       r += ")";
                   });
    r += " outputs";
    n.foreach_po([&](auto const& s) { r += std::string{n.is_complemented(s) ? " !" : " "} + std::to_string(n.get_node(s)); });
    return r;
}
}  // namespace net
#endif
