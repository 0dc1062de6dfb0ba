// C27: equivalence checking against truth tables, path lengths and design rules computed independently.
#include "drc.hpp"
#include "net.hpp"
#include <fiction/algorithms/verification/equivalence_checking.hpp>
#include <fiction/types.hpp>

struct design_facts
{
    bool                  broken{false};  // violates a design rule
    int                   pis{0};
    std::vector<uint64_t> out{};
    uint64_t              tp{1};
};
static design_facts facts(const net::desc& d) { return {false, d.pis, d.outputs(), 1}; }
static design_facts facts(const model& m)
{
    design_facts f;
    for (int r = 0; r < RULES; ++r) f.broken |= expected(m, r).drvs > 0;
    f.pis = static_cast<int>(m.ins.size());
    if (f.broken) return f;
    for (int o : m.outs)
    {
        uint64_t w = 0;
        for (int x = 0; x < (1 << f.pis); ++x)
        {
            std::function<bool(int)> ev = [&](int n) -> bool {
                for (int i = 0; i < f.pis; ++i) if (m.ins[i] == n) return (x >> i) & 1;
                bool v[3] = {false, false, false};
                int  k    = 0;
                for (const auto& s : m.fanin(n, true)) if (k < 3) v[k++] = ev(m.at(s));
                return eval(m.v[n].f, v[0], v[1], v[2]);
            };
            if (ev(o)) w |= 1ull << x;
        }
        f.out.push_back(w);
    }
    f.tp = reference(m).throughput;
    return f;
}
template <class A, class B> static void judge(mc::ctx& c, const A& a, const design_facts& fa, const B& b, const design_facts& fb, const std::string& w)
{
    static struct mute { std::ostringstream o; std::streambuf* b{std::cout.rdbuf(o.rdbuf())}; ~mute() { std::cout.rdbuf(b); } } m;
    m.o.str("");
    equivalence_checking_stats st{};
    st.eq = eq_type::WEAK;
    st.counter_example = {true, true, true, true, true, true, true, true, true};
    const auto r = equivalence_checking(a, b, &st);
    const bool comparable = !fa.broken && !fb.broken && fa.pis == fb.pis && fa.out.size() == fb.out.size();
    const bool same = comparable && fa.out == fb.out;
    const auto want = !same ? eq_type::NO : fa.tp == fb.tp ? eq_type::STRONG : eq_type::WEAK;
    const auto nm   = [](eq_type e) { return e == eq_type::NO ? "NO" : e == eq_type::WEAK ? "WEAK" : "STRONG"; };
    CK(r == want, "verdict", w + ": " + nm(r) + " instead of " + nm(want));
    CK(st.eq == r, "the statistics hold another verdict", w);
    if (same) CK(st.tp_spec == static_cast<int64_t>(fa.tp) && st.tp_impl == static_cast<int64_t>(fb.tp) && st.tp_diff == std::abs(static_cast<int64_t>(fa.tp) - static_cast<int64_t>(fb.tp)), "throughputs in the statistics", w);
    if (comparable && !same)
    {
        CK(static_cast<int>(st.counter_example.size()) == fa.pis, "size of the counterexample", w);
        uint64_t x = 0;
        for (std::size_t i = 0; i < st.counter_example.size(); ++i) x |= static_cast<uint64_t>(st.counter_example[i]) << i;
        bool d = false;
        for (std::size_t o = 0; o < fa.out.size(); ++o) d |= ((fa.out[o] ^ fb.out[o]) >> x) & 1;
        CK(d, "the counterexample does not distinguish the designs", w + ": " + std::to_string(x));
    }
    else CK(st.counter_example.empty(), "a counterexample without a functional difference", w);
    c.step();
}
static const std::vector<int> K2{net::NOT, net::AND, net::OR, net::XOR, net::LT, net::MAJ};
MC_MODEL(networks, "every pair of networks of one gate with one or two outputs on one or two (thorough three) inputs (constants included)", 24)
{
    net::bound b{1, c.thorough ? 3 : 2, 0, 1, K2, 1, 1};
    b.constants = true;
    const auto p = net::choose(c, b);
    b.pos_lo = p.pis == 1 ? 1 : 1;
    const auto q = net::choose(c, b);
    judge(c, net::build<technology_network>(p), facts(p), net::build<technology_network>(q), facts(q), p.str() + " vs " + q.str());
    if (p.pis < 3 && q.pis < 3) judge(c, net::build<mockturtle::aig_network>(p), facts(p), net::build<mockturtle::mig_network>(q), facts(q), p.str() + " (aig) vs (mig) " + q.str());
    c.sample(p.str() + " vs " + q.str());
}
MC_MODEL(two_outputs, "every pair of networks of up to one gate and one or two outputs in any order", 24)
{
    net::bound b{2, 2, 0, 1, {net::AND, net::XOR, net::LT}, 1, 2};
    const auto p = net::choose(c, b), q = net::choose(c, b);
    judge(c, net::build<technology_network>(p), facts(p), net::build<technology_network>(q), facts(q), p.str() + " vs " + q.str());
    c.sample(p.str() + " vs " + q.str());
}
MC_MODEL(larger_networks, "every network of two gates against the same with one gate, fanin or output changed", 24)
{
    net::bound b{2, c.thorough ? 3 : 2, 2, 2, {net::AND, net::OR, net::XOR, net::LE}, 1, 1};
    const auto p = net::choose(c, b);
    auto q = p;
    const int g = c.choose(3);
    if (g < 2)
    {
        const int what = c.choose(3);
        if (what == 0) q.gates[g].k = c.pick(b.kinds);
        else q.gates[g].in[what - 1] = c.range(0, 1 + p.pis + g);
    }
    else q.pos[0] = c.range(0, p.signals() - 1);
    judge(c, net::build<technology_network>(p), facts(p), net::build<technology_network>(q), facts(q), p.str() + " vs " + q.str());
    c.sample(p.str() + " vs " + q.str());
}
// designs on layouts: a gate of two wires of chosen lengths, possibly inverted, possibly damaged
template <class L> static void gate_design(mc::ctx& c, session<L>& s, fn f, int a, int b, int inv, int extra)
{
    // input 0 comes along row 2 from column a, input 1 down column 9 from row b
    for (int x = a; x < 9; ++x) { if (x == a) s.pi(P{x, 2, 0}); else s.gate(inv == 1 && x == 8 ? NOT : BUF, {{x - 1, 2, 0}}, P{x, 2, 0}); }
    for (int y = b; y < 2; ++y) { if (y == b) s.pi(P{9, y, 0}); else s.gate(BUF, {{9, y - 1, 0}}, P{9, y, 0}); }
    s.gate(f, {{8, 2, 0}, {9, 1, 0}}, P{9, 2, 0});
    if (extra == 1) { s.gate(NOT, {{9, 2, 0}}, P{9, 3, 0}); s.po({9, 3, 0}, P{9, 4, 0}); }
    else s.po({9, 2, 0}, P{9, 3, 0});
    if (extra == 2) s.po({9, 2, 0}, P{10, 2, 0});
    if (extra == 3) s.pi(P{1, 4, 0});                                              // dangling
    if (extra == 4) s.move(static_cast<int>(s.m.v.size()) - 1, P{0, 0, 0}, {{9, 2, 0}});  // the output elsewhere
    if (extra == 5) s.clear({9, 2, 0});
    (void) c;
}
template <class L> static void layouts(mc::ctx& c)
{
    // the chosen design against networks of every function and against every other such design
    const std::vector<fn> F{AND, XOR, LT};
    const std::vector<int> A = c.thorough ? std::vector<int>{8, 7, 6, 4, 3, 2, 0} : std::vector<int>{8, 5, 4, 0};
    const auto make_one = [&](session<L>& s) {
        const auto f = c.pick(F);
        const int  a = c.pick(A), b = c.range(0, 1), i = c.range(0, 1), e = c.range(0, 5);
        if (i && a == 8) c.prune();
        if (e > 2 && !c.thorough && (b || i)) c.prune();
        gate_design(c, s, f, a, b, i, e);
    };
    session<L> s{c, {10, 4, 1}, "2DDWAVE4"};
    make_one(s);
    const auto fs = facts(s.m);
    if (c.flip())
    {
        net::desc d{c.range(1, 3), {}, {}};
        if (d.pis == 2)
        {
            d.gates.push_back({c.pick(std::vector<int>{net::AND, net::XOR, net::LT, net::OR, net::GT, net::NAND, net::XNOR, net::GE, net::LE}), {2, 3}});
            if (c.flip()) std::swap(d.gates[0].in[0], d.gates[0].in[1]);
        }
        d.pos.push_back(d.signals() - 1);
        if (c.flip()) d.pos.push_back(d.signals() - 1);
        judge(c, *s.l, fs, net::build<technology_network>(d), facts(d), s.log + " vs " + d.str());
        judge(c, net::build<technology_network>(d), facts(d), *s.l, fs, d.str() + " vs " + s.log);
    }
    else
    {
        session<L> t{c, {10, 4, 1}, "2DDWAVE4"};
        make_one(t);
        judge(c, *s.l, fs, *t.l, facts(t.m), s.log + " vs " + t.log);
    }
    c.sample(s.log);
}
MC_MODEL(layout_pairs, "gates with wires of different lengths, inverters, second outputs and damages on Cartesian layouts against each other and against networks", 24) { layouts<cart>(c); }
MC_MODEL(empty_layouts, "layouts without anything against networks and each other", 1)
{
    session<cart> s{c, {1, 1, 1}, "2DDWAVE4"}, t{c, {1, 1, 1}, "2DDWAVE4"};
    const int k = c.choose(4);
    if (k & 1) { s.pi(P{0, 0, 0}); if (k & 2) { s.po({0, 0, 0}, P{1, 0, 0}); } }
    net::desc d{c.range(1, 2), {}, {2}};
    judge(c, *s.l, facts(s.m), net::build<technology_network>(d), facts(d), s.log + " vs " + d.str());
    t.pi(P{0, 1, 0}); t.po({0, 1, 0}, P{1, 1, 0});
    judge(c, *s.l, facts(s.m), *t.l, facts(t.m), s.log + " vs " + t.log);
}
