// C21: the scalable placement and routing on every small network.
#include "lay.hpp"
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/types.hpp>
using namespace fiction;
using clyt = cart_gate_clk_lyt;

template <class Ntk> static void judge(mc::ctx& c, const net::desc& d, num_clks clk, bool named)
{
    auto ntk = [&] { mockturtle::names_view<Ntk> n{net::build<Ntk>(d)}; if (named) net::name(n); return n; }();
    const auto w = d.str();
    c.note(w);
    bool high = false;
    for (const auto& g : d.gates)
    {
        int k = 0;
        for (int i : g.in) k += i > 1;
        high |= k > 2;
    }
    orthogonal_physical_design_stats st{};
    orthogonal_physical_design_params ps{};
    ps.number_of_clock_phases = clk;
    std::optional<clyt> r;
    try { r = orthogonal<clyt>(ntk, ps, &st); }
    catch (const high_degree_fanin_exception&) { CK(high, "a network without large gates is rejected", w); return; }
    const auto& l = *r;
    const int   mx = static_cast<int>(l.x()), my = static_cast<int>(l.y());
    CK(l.num_clocks() == (clk == num_clks::THREE ? 3 : 4) && l.is_clocking_scheme("2DDWAVE"), "clocking", w);
    lay::opts o;
    for (int i = 0; i < d.pis; ++i)  // an input nothing reads is kept all the same
    {
        bool read = false;
        for (const auto& g : d.gates) for (int k : g.in) read |= k == 2 + i;
        for (int k : d.pos) read |= k == 2 + i;
        o.unread_inputs += !read;
    }
    const auto e = lay::errors(l, {topo::CART, false, mx, my, static_cast<int>(l.z())}, o);
    bool twice = false;
    for (const auto& g : d.gates) for (std::size_t i = 0; i < g.in.size(); ++i) for (std::size_t j = 0; j < i; ++j) twice |= g.in[i] == g.in[j];
    if (twice && e.rfind("a gate of 2 inputs has 1 connections", 0) == 0)
    {
        c.check(false, "a gate that reads a signal twice is connected once", w + ": " + e);
        return;
    }
    CK(e.empty(), "design rule", w + ": " + e + "; " + lay::dump(l));
    auto in = lay::names("in", d.pis), out = lay::names("out", d.pos.size());
    if (!named)  // any names will do
    {
        for (int i = 0; i < d.pis; ++i) in[i] = l.get_input_name(i);
        for (std::size_t i = 0; i < d.pos.size() && i < l.num_pos(); ++i) out[i] = l.get_output_name(i);
    }
    net::desc            k = d;  // without constant outputs
    std::vector<std::string> ko;
    k.pos.clear();
    for (std::size_t i = 0; i < d.pos.size(); ++i) if (d.pos[i] > 1) { k.pos.push_back(d.pos[i]); ko.push_back(out[i]); }
    if (k.pos.size() < d.pos.size() && l.num_pos() == k.pos.size())
    {
        const auto f = lay::function_errors(l, k, in, ko);
        CK(f.empty() || f.find("is missing") != std::string::npos, "function of the other outputs", w + ": " + f + "; " + lay::dump(l));
        c.check(f.empty(), "constant outputs shift the names of others", w + ": " + f);
        c.check(false, "constant outputs are dropped", w);
    }
    const auto f = lay::function_errors(l, d, in, out);
    CK(f.empty(), "function", w + ": " + f + "; " + lay::dump(l));
    if (named) CK(l.get_layout_name() == "net", "name of the layout", w);
    CK(st.x_size == l.x() + 1 && st.y_size == l.y() + 1 && st.num_gates == l.num_gates() && st.num_wires == l.num_wires() && st.num_crossings == l.num_crossings(), "statistics", w);
    c.step();
    c.sample(w);
}
static const std::vector<int> TWO{net::NOT, net::AND, net::LT, net::XOR};
template <class Ntk> static void networks(mc::ctx& c, net::bound b, bool both = false)
{
    const auto d = net::choose(c, b);
    const auto clk = both && c.flip() ? num_clks::THREE : num_clks::FOUR;
    judge<Ntk>(c, d, clk, true);
}
static net::bound bd(int p0, int p1, int g0, int g1, std::vector<int> k, int o0, int o1)
{
    net::bound b{p0, p1, g0, g1, std::move(k), o0, o1};
    b.live_gates = b.live_inputs = b.distinct_fanins = true;
    return b;
}
MC_MODEL(one_output, "every network of one to three inputs, up to two gates and one output", 24) { networks<technology_network>(c, bd(1, 3, 0, 2, TWO, 1, 1), true); }
MC_MODEL(two_outputs, "every network of one to three inputs, up to two gates and two outputs, in any order and at the same node", 24) { networks<technology_network>(c, bd(1, 3, 0, 2, TWO, 2, 2)); }
MC_MODEL(three_outputs, "every network of one or two inputs, up to one gate (thorough two) and three outputs", 24) { networks<technology_network>(c, bd(1, 2, 0, c.thorough ? 2 : 1, TWO, 3, 3)); }
static net::bound loose(net::bound b, bool gates, bool inputs, bool repeated)
{
    b.live_gates      = !gates;
    b.live_inputs     = !inputs;
    b.distinct_fanins = !repeated;
    return b;
}
MC_MODEL(three_gates, "every network of two inputs (thorough three) and three gates of types NOT, AND and LT, one output", 24) { networks<technology_network>(c, bd(2, c.thorough ? 3 : 2, 3, 3, c.thorough ? std::vector<int>{net::NOT, net::AND, net::LT} : std::vector<int>{net::NOT, net::AND, net::LT}, 1, 1)); }
MC_MODEL(three_gates_two_outputs, "every network of two inputs and three gates of types NOT and LT, two outputs", 24) { networks<technology_network>(c, bd(2, 2, 3, 3, {net::NOT, net::LT}, 2, 2)); }
MC_MODEL(all_types, "every network of one gate of any one- or two-input type, feeding an inverter or not", 24)
{
    std::vector<int> k;
    for (int i = 0; i <= net::XNOR; ++i) k.push_back(i);
    networks<technology_network>(c, bd(1, 2, 1, 2, k, 1, 1), true);
}
MC_MODEL(unused_inputs, "networks with inputs no gate reads", 24) { networks<technology_network>(c, loose(bd(1, 3, 0, 1, TWO, 1, 2), false, true, false)); }
MC_MODEL(unused_gates, "networks with gates no output reads", 24) { networks<technology_network>(c, loose(bd(1, 2, 1, 2, TWO, 1, 1), true, false, false)); }
MC_MODEL(repeated_fanins, "networks with gates that read the same signal twice", 24) { networks<technology_network>(c, loose(bd(1, 2, 1, 2, {net::AND, net::XOR, net::LT}, 1, 1), false, false, true)); }
MC_MODEL(constant_outputs, "networks some of whose outputs are constant", 24)
{
    auto b = bd(1, 2, 0, 1, TWO, 2, 2);
    b.constants = true;
    const auto d = net::choose(c, b);
    for (const auto& g : d.gates) for (int i : g.in) if (i < 2) c.prune();
    judge<technology_network>(c, d, num_clks::FOUR, true);
}
MC_MODEL(constant_fanins, "networks with majority gates one fanin of which is constant, and an inverter", 24)
{
    auto b = bd(2, 3, 1, 2, {net::MAJ, net::NOT}, 1, 1);
    b.constants = true;
    const auto d = net::choose(c, b);
    for (const auto& g : d.gates) { int k = 0; for (int i : g.in) k += i < 2; if (k != (g.k == net::MAJ ? 1 : 0)) c.prune(); }
    if (d.pos[0] < 2) c.prune();
    judge<technology_network>(c, d, num_clks::FOUR, true);
}
MC_MODEL(large_gates, "networks with a gate of three inputs are rejected", 24) { networks<technology_network>(c, bd(3, 3, 1, 2, {net::MAJ, net::ITE}, 1, 1)); }
MC_MODEL(aig, "the same networks given as AND-inverter graphs", 24) { networks<mockturtle::aig_network>(c, bd(2, 3, 1, 2, {net::AND, net::XOR, net::LE, net::NOR}, 1, 2)); }
MC_MODEL(mig, "the same networks given as majority-inverter graphs", 24) { networks<mockturtle::mig_network>(c, bd(2, 2, 1, 2, {net::AND, net::XOR, net::LE, net::NOR}, 1, 2)); }
MC_MODEL(nameless, "networks without names", 24)
{
    const auto d = net::choose(c, bd(1, 3, 0, 1, TWO, 1, 2));
    judge<technology_network>(c, d, num_clks::FOUR, false);
}
MC_MODEL(no_inputs, "networks without inputs", 1)
{
    net::desc d{0, {}, {}};
    for (int i = c.range(0, 2); i > 0; --i) d.pos.push_back(c.range(0, 1));
    judge<technology_network>(c, d, num_clks::FOUR, true);
}
