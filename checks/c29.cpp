// C29: network transformations preserve function and names and establish their target form.
#include "net.hpp"
#include <fiction/algorithms/network_transformation/delete_virtual_pis.hpp>
#include <fiction/algorithms/network_transformation/fanout_substitution.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/algorithms/network_transformation/network_conversion.hpp>
#include <fiction/algorithms/verification/virtual_miter.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/mig.hpp>
#include <mockturtle/networks/xag.hpp>
#include <algorithm>
using namespace net;
using fiction::tec_nt;

// ---- structure of a technology network, counted independently
struct shape
{
    std::map<uint64_t, uint32_t>              fanout;
    std::map<uint64_t, std::vector<uint64_t>> in;
    std::vector<uint64_t>                     pis, pos, gates;
    std::map<uint64_t, int>                   level;
    explicit shape(const tec_nt& n)
    {
        n.foreach_pi([&](auto const& x) { pis.push_back(x); fanout[x]; level[x] = 0; });
        n.foreach_gate([&](auto const& x) { gates.push_back(x); fanout[x]; n.foreach_fanin(x, [&](auto const& f) { ++fanout[f]; in[x].push_back(f); }); });
        n.foreach_po([&](auto const& x) { ++fanout[x]; pos.push_back(x); });
        level[0] = level[1] = 0;
        for (auto x : gates) lev(x);
    }
    int lev(uint64_t x)
    {
        if (const auto it = level.find(x); it != level.end()) return it->second;
        int m = 0;
        for (auto f : in[x]) m = std::max(m, lev(f));
        return level[x] = m + 1;
    }
};
static std::multiset<std::string> functions(const tec_nt& n)
{
    std::multiset<std::string> r;
    n.foreach_gate([&](auto const& x) { const auto f = n.node_function(x); if (!(f.num_vars() == 1 && kitty::get_bit(f, 1) && !kitty::get_bit(f, 0))) r.insert(std::to_string(f.num_vars()) + kitty::to_hex(f)); });
    return r;
}
static std::multiset<std::string> functions(const desc& d)
{
    std::multiset<std::string> r;
    const auto                 l = d.live();
    for (int s = 2 + d.pis; s < d.signals(); ++s)
        if (l[s] && d.at(s).k != BUF)
        {
            kitty::dynamic_truth_table t(static_cast<uint32_t>(arity(d.at(s).k)));
            const uint64_t             w = bits(d.at(s).k);
            kitty::create_from_words(t, &w, &w + 1);
            r.insert(std::to_string(t.num_vars()) + kitty::to_hex(t));
        }
    return r;
}
static void fanouts(mc::ctx& c, const desc& d, int seeds)
{
    using S = fiction::fanout_substitution_params::substitution_strategy;
    tec_nt n = build<tec_nt>(d);
    name(n);
    for (int st = 0; st < 2 + seeds; ++st)
        for (uint32_t deg = 2; deg <= 3; ++deg)
            for (uint32_t th = 1; th <= 3; ++th)
            {
                fiction::fanout_substitution_params ps{st == 0 ? S::BREADTH : st == 1 ? S::DEPTH : S::RANDOM, deg, th, static_cast<uint32_t>(st)};
                const std::string how = std::string{st == 0 ? "breadth" : st == 1 ? "depth" : "random"} + "-first, degree " + std::to_string(deg) + ", threshold " + std::to_string(th);
                const auto legal = [&](const tec_nt& m)
                {
                    const shape s(m);
                    for (const auto& [x, f] : s.fanout)
                        if (x > 1)
                        {
                            const bool buf = m.node_function(x).num_vars() == 1 && kitty::get_bit(m.node_function(x), 1) && !kitty::get_bit(m.node_function(x), 0) && !m.is_pi(x);
                            if (f > (buf && f > 1 ? deg : th)) return false;
                        }
                    return true;
                };
                CK(fiction::is_fanout_substituted(n, ps) == legal(n), "is_fanout_substituted is wrong about a network as built", d.str() + " " + how);
                const auto r = fiction::fanout_substitution<tec_nt>(n, ps);
                c.step();
                const auto e = function_errors(r, d);
                CK(e.empty(), "fanout substitution: " + e, d.str() + " " + how + dump(r));
                CK(name_errors(r, d.pis, static_cast<int>(d.pos.size())).empty(), "fanout substitution: " + name_errors(r, d.pis, static_cast<int>(d.pos.size())), d.str() + " " + how);
                CK(legal(r), "after fanout substitution some node drives more successors than permitted", d.str() + " " + how + dump(r));
                CK(fiction::is_fanout_substituted(r, ps), "is_fanout_substituted denies the result of fanout substitution", d.str() + " " + how + dump(r));
                CK(functions(r) == functions(d), "fanout substitution changes other gates than buffers", d.str() + " " + how + dump(r));
                CK(function_errors(n, d).empty(), "fanout substitution changes its input", d.str() + " " + how);
            }
}
MC_MODEL(fanout_substitution, "all networks of 1-2 inputs, 1-2 gates (buf, not, lt), 3 outputs; breadth, depth, random with 2 seeds; degree 2-3, threshold 1-3", 24)
{
    bound b;
    b.kinds    = {BUF, NOT, LT};
    b.gates_lo = 1;
    b.gates_hi = 2;
    b.pos_lo = b.pos_hi = 3;
    fanouts(c, choose(c, b), 2);
}
MC_MODEL(fanout_substitution_deep, "all networks of 2 inputs, 3 gates (buf, lt) all live, 1 output (thorough: 2); same settings, 1 seed", 24)
{
    bound b;
    b.pis_lo     = 2;
    b.kinds      = {BUF, LT};
    b.gates_lo   = b.gates_hi = 3;
    b.pos_hi     = c.thorough ? 2 : 1;
    b.live_gates = true;
    fanouts(c, choose(c, b), 1);
}
MC_MODEL(fanout_substitution_wide, "1 input, up to 2 gates (buf, not) and 5 outputs (thorough: 5-7) in every arrangement; same settings, 2 seeds", 24)
{
    bound b;
    b.pis_hi = 1;
    b.kinds  = {BUF, NOT};
    b.pos_lo = 5;
    b.pos_hi = c.thorough ? 7 : 5;
    const auto d = choose(c, b);
    fanouts(c, d, 2);
}
MC_MODEL(fanout_substitution_constants, "1 input, up to 2 gates (lt) with constants as fanins and outputs, 1-2 outputs (thorough: 3)", 24)
{
    bound b;
    b.pis_hi    = 1;
    b.kinds     = {LT};
    b.constants = true;
    b.pos_hi    = c.thorough ? 3 : 2;
    fanouts(c, choose(c, b), 1);
}
// ---- balancing
static void balance(mc::ctx& c, const desc& d)
{
    tec_nt n = build<tec_nt>(d);
    name(n);
    for (const bool unify : {false, true})
    {
        fiction::network_balancing_params ps{unify};
        const auto balanced = [&](const tec_nt& m)
        {
            const shape s(m);
            for (auto g : s.gates) for (auto f : s.in.at(g)) if (f > 1 && s.level.at(f) + 1 != s.level.at(g)) return false;
            if (unify) for (auto p : s.pos) if (s.level.at(p) != s.level.at(s.pos[0])) return false;
            return true;
        };
        const std::string how = unify ? "unified outputs" : "plain";
        if (d.live() == std::vector<bool>(static_cast<std::size_t>(d.signals()), true) || d.all_live())
            CK(fiction::is_balanced(n, ps) == balanced(n), "is_balanced is wrong about a network as built", d.str() + " " + how);
        const auto r = fiction::network_balancing<tec_nt>(n, ps);
        c.step();
        const auto e = function_errors(r, d);
        CK(e.empty(), "balancing: " + e, d.str() + " " + how + dump(r));
        CK(name_errors(r, d.pis, static_cast<int>(d.pos.size())).empty(), "balancing: " + name_errors(r, d.pis, static_cast<int>(d.pos.size())), d.str() + " " + how);
        CK(balanced(r), "after balancing, paths of different length lead to a node", d.str() + " " + how + dump(r));
        CK(fiction::is_balanced(r, ps), "is_balanced denies the result of balancing", d.str() + " " + how + dump(r));
        CK(functions(r) == functions(d), "balancing changes other gates than buffers", d.str() + " " + how + dump(r));
        CK(function_errors(n, d).empty(), "balancing changes its input", d.str() + " " + how);
    }
}
MC_MODEL(balancing, "all networks of 1-2 inputs, up to 3 gates (not, lt), 1-2 outputs; plain and unified", 24)
{
    bound b;
    b.kinds    = {NOT, LT};
    b.gates_hi = 3;
    b.pos_hi   = 2;
    balance(c, choose(c, b));
}
MC_MODEL(balancing_constants, "all networks of 1-2 inputs, up to 2 gates (buf, lt, maj) with constants, 0-2 outputs", 24)
{
    bound b;
    b.kinds     = {BUF, LT, MAJ};
    b.pis_hi    = 1;
    b.constants = true;
    b.pos_lo    = 0;
    b.pos_hi    = 2;
    balance(c, choose(c, b));
}
MC_MODEL(balancing_deep, "all networks of 2 inputs and 4 gates (not, lt) in which everything is live, 1 output", 24)
{
    bound b;
    b.kinds       = {NOT, LT};
    b.pis_lo      = 2;
    b.gates_lo    = b.gates_hi = 4;
    b.live_gates  = true;
    b.live_inputs = true;
    balance(c, choose(c, b));
}
// ---- conversion
template <class To, class From>
static void convert(mc::ctx& c, const desc& d, const From& n, const char* what)
{
    const auto r = fiction::convert_network<To>(n);
    c.step();
    const auto e = function_errors(r, d);
    CK(e.empty(), std::string{"conversion "} + what + ": " + e, d.str() + dump(r));
    const auto ne = name_errors(r, d.pis, static_cast<int>(d.pos.size()));
    CK(ne.empty(), std::string{"conversion "} + what + ": " + ne, d.str());
    CK(function_errors(n, d).empty(), std::string{"conversion "} + what + " changes its input", d.str());
}
template <class From>
static void convert_all(mc::ctx& c, const desc& d, const char* from)
{
    From n = build<From>(d);
    name(n);
    const std::string f{from};
    convert<fiction::tec_nt>(c, d, n, (f + " to technology network").c_str());
    convert<fiction::aig_nt>(c, d, n, (f + " to AIG").c_str());
    convert<fiction::xag_nt>(c, d, n, (f + " to XAG").c_str());
    convert<fiction::mig_nt>(c, d, n, (f + " to MIG").c_str());
}
MC_MODEL(conversion, "between technology networks, AIGs, XAGs and MIGs: all networks of 1-2 inputs, up to 2 gates (not, lt) with constants, 1 output", 24)
{
    const int from = c.choose(4);
    bound     b;
    b.kinds     = {NOT, LT};
    if (c.thorough) b.kinds = from == 0 ? std::vector<int>{BUF, NOT, LT, NOR, XOR, MAJ} : std::vector<int>{NOT, AND, OR, LT, XOR, MAJ};
    b.constants = true;
    b.gates_hi  = 2;
    const auto d = choose(c, b);
    if (from == 0) convert_all<fiction::tec_nt>(c, d, "technology network");
    else if (from == 1) convert_all<fiction::aig_nt>(c, d, "AIG");
    else if (from == 2) convert_all<fiction::xag_nt>(c, d, "XAG");
    else convert_all<fiction::mig_nt>(c, d, "MIG");
}
MC_MODEL(conversion_outputs, "networks of 2 inputs, up to 1 gate, 1-4 outputs in every arrangement", 4)
{
    const int from = c.choose(4);
    bound     b;
    b.pis_lo    = 2;
    b.kinds     = {NOT, LT};
    b.constants = true;
    b.gates_hi  = 1;
    b.pos_hi    = 3;
    const auto d = choose(c, b);
    if (from == 0) convert_all<fiction::tec_nt>(c, d, "technology network");
    else if (from == 1) convert_all<fiction::aig_nt>(c, d, "AIG");
    else if (from == 2) convert_all<fiction::xag_nt>(c, d, "XAG");
    else convert_all<fiction::mig_nt>(c, d, "MIG");
}
MC_MODEL(conversion_gates, "every gate type of technology networks, all fanin selections from 3 inputs", 22)
{
    const int k = c.choose(KINDS);
    desc      d;
    d.pis = 3;
    gate g{k, {}};
    for (int i = 0; i < arity(k); ++i) g.in.push_back(c.range(2, 4));
    d.gates = {g};
    d.pos   = {5};
    convert_all<fiction::tec_nt>(c, d, "technology network");
}
// ---- virtual inputs
using V  = fiction::virtual_pi_network<tec_nt>;
using VA = fiction::virtual_pi_network<fiction::aig_nt>;
template <class Ntk>
static void virtuals(mc::ctx& c, const char* what)
{
    // up to 4 inputs created in any order of real and virtual ones
    Ntk                               n{};
    std::vector<typename Ntk::signal> s;
    std::vector<int>                  real_of;  // for every input: which real input it stands for
    int                               reals = 0;
    const int                         m     = c.range(1, 4);
    for (int i = 0; i < m; ++i)
    {
        const int k = i == 0 ? 0 : c.choose(reals + 1);
        if (k == 0)
        {
            s.push_back(n.create_pi());
            real_of.push_back(reals++);
        }
        else
        {
            int r = 0;
            while (real_of[r] != k - 1) ++r;
            s.push_back(n.create_virtual_pi(s[r]));
            real_of.push_back(k - 1);
        }
    }
    desc d;  // the network after merging
    d.pis = reals;
    const auto src = [&](int i) { return i < m ? 2 + real_of[i] : 2 + reals + (i - m); };
    const int  g   = c.range(0, m == 4 && !c.thorough ? 1 : 2);
    for (int i = 0; i < g; ++i)
    {
        const int k = c.choose(2) ? LT : NOT;
        gate      q{k, {}};
        std::vector<typename Ntk::signal> f;
        for (int j = 0; j < arity(k); ++j)
        {
            const int x = c.choose(static_cast<int>(s.size()));
            f.push_back(s[x]);
            q.in.push_back(src(x));
        }
        s.push_back(create(n, k, f));
        d.gates.push_back(q);
    }
    const int p = c.range(1, g == 2 && m == 3 && !c.thorough ? 1 : 2);
    for (int i = 0; i < p; ++i)
    {
        const int x = c.choose(static_cast<int>(s.size()));
        n.create_po(s[x]);
        d.pos.push_back(src(x));
    }
    n.set_network_name("net");
    for (int i = 0, k = 0; i < m; ++i)
    {
        const bool real = static_cast<int>(std::find(real_of.begin(), real_of.end(), real_of[i]) - real_of.begin()) == i;
        n.set_name(s[i], real ? "in" + std::to_string(k++) : "virtual" + std::to_string(i));
    }
    for (int i = 0; i < p; ++i) n.set_output_name(static_cast<uint32_t>(i), "out" + std::to_string(i));
    std::string in = d.str() + "; inputs stand for";
    for (auto r : real_of) in += " x" + std::to_string(r);
    // the network itself
    CK(n.num_virtual_pis() == static_cast<uint32_t>(m - reals) && n.num_real_pis() == static_cast<uint32_t>(reals) && n.num_pis() == static_cast<uint32_t>(m) && n.num_virtual_cis() == n.num_virtual_pis() &&
           n.num_real_cis() == n.num_real_pis() && n.real_size() == n.size() - n.num_virtual_pis(), std::string{what} + ": the numbers of virtual and real inputs are wrong", in);
    std::vector<uint64_t> rp, vp, rc, vc, erp, evp;
    for (int i = 0; i < m; ++i)
    {
        const bool real = static_cast<int>(std::find(real_of.begin(), real_of.end(), real_of[i]) - real_of.begin()) == i;
        const auto x    = n.get_node(s[i]);
        (real ? erp : evp).push_back(x);
        CK(n.is_real_pi(x) == real && n.is_virtual_pi(x) == !real && n.is_real_ci(x) == real && n.is_virtual_ci(x) == !real && n.is_pi(x), std::string{what} + ": an input is classified wrongly", in);
        if (!real) CK(n.get_real_pi(x) == n.get_node(s[std::find(real_of.begin(), real_of.end(), real_of[i]) - real_of.begin()]), std::string{what} + ": a virtual input maps to another real input", in);
    }
    for (std::size_t i = static_cast<std::size_t>(m); i < s.size(); ++i)
        if (!n.is_pi(n.get_node(s[i]))) CK(!n.is_real_pi(n.get_node(s[i])) && !n.is_virtual_pi(n.get_node(s[i])), std::string{what} + ": a gate is classified as an input", in);
    n.foreach_real_pi([&](auto const& x) { rp.push_back(x); });
    n.foreach_virtual_pi([&](auto const& x) { vp.push_back(x); });
    n.foreach_real_ci([&](auto const& x) { rc.push_back(x); });
    n.foreach_virtual_ci([&](auto const& x) { vc.push_back(x); });
    CK(rp == erp && vp == evp && rc == erp && vc == evp, std::string{what} + ": virtual or real inputs are listed wrongly", in);
    auto cl = n.clone();
    cl.create_virtual_pi(cl.make_signal(cl.pi_at(0)));
    CK(n.num_virtual_pis() == static_cast<uint32_t>(m - reals) && cl.num_virtual_pis() == static_cast<uint32_t>(m - reals + 1), std::string{what} + ": a clone shares its virtual inputs", in);
    // removal
    const auto r = fiction::delete_virtual_pis(n);
    c.step();
    CK(r.num_virtual_pis() == 0, std::string{what} + ": virtual inputs are left after their removal", in);
    const auto e = function_errors(r, d);
    CK(e.empty(), std::string{what} + " without its virtual inputs: " + e, in + dump(r));
    const auto ne = name_errors(r, reals, p);
    CK(ne.empty(), std::string{what} + " without its virtual inputs: " + ne, in);
    // and the miter of the network with the merged one is never satisfied
    const auto plain = build<tec_nt>(d);
    const auto mi    = fiction::virtual_miter<fiction::technology_network>(n, plain);
    CK(mi.has_value() && mi->num_pis() == static_cast<uint32_t>(reals), std::string{what} + ": no miter with the network without virtual inputs", in);
    walker<fiction::technology_network> w(*mi);
    CK(w.outputs().at(0) == 0, std::string{what} + ": the miter with the same function is satisfiable", in);
}
MC_MODEL(virtual_inputs, "up to 4 real and virtual inputs in every order, up to 1-2 gates (not, lt), 1-2 outputs; technology networks", 4) { virtuals<V>(c, "a technology network"); }
MC_MODEL(virtual_inputs_aig, "the same for AIGs", 4) { virtuals<VA>(c, "an AIG"); }
// ---- miters
MC_MODEL(miters, "all pairs of networks of 2 inputs with 1 gate or 1 output more: the miter computes the difference", 24)
{
    bound b;
    b.pis_lo     = 1;
    b.kinds      = {NOT, LT, XOR};
    b.gates_hi   = 1;
    b.pos_hi     = 2;
    const auto x = choose(c, b);
    const auto y = choose(c, b);
    const auto m = fiction::virtual_miter<fiction::technology_network>(build<tec_nt>(x), build<tec_nt>(y));
    c.step();
    if (x.pis != y.pis || x.pos.size() != y.pos.size())
    {
        CK(!m.has_value(), "a miter of networks with different interfaces", x.str() + " / " + y.str());
        return;
    }
    CK(m.has_value(), "no miter of networks with equal interfaces", x.str() + " / " + y.str());
    walker<fiction::technology_network> w(*m);
    const auto o = w.outputs();
    uint64_t   e = 0;
    for (std::size_t i = 0; i < x.pos.size(); ++i) e |= x.outputs()[i] ^ y.outputs()[i];
    CK(o.size() == 1 && o[0] == e, "the miter does not compute the difference of the functions", x.str() + " / " + y.str());
}
