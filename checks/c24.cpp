// C24: hexagonalization, post-layout optimization and wiring reduction on the layouts of every small network.
#include "lay.hpp"
#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>
#include <fiction/types.hpp>
#include <chrono>
using namespace fiction;
using clyt = cart_gate_clk_lyt;
using hlyt = hex_even_row_gate_clk_lyt;
using io   = hexagonalization_params::io_pin_extension_mode;

// the clock under control: it stands still until the reading at which the time runs out
static long readings = 0, runs_out = -1;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
    ++readings;
    return time_point(std::chrono::hours(runs_out >= 0 && readings > runs_out ? 1000 : 1));
}

static const std::vector<int> TWO{net::NOT, net::AND, net::LT, net::XOR};
static net::bound bd(int p0, int p1, int g0, int g1, std::vector<int> k, int o0, int o1)
{
    net::bound b{p0, p1, g0, g1, std::move(k), o0, o1};
    b.live_gates = b.live_inputs = b.distinct_fanins = true;
    return b;
}
static clyt place_route(const net::desc& d)
{
    mockturtle::names_view<technology_network> n{net::build<technology_network>(d)};
    net::name(n);
    return orthogonal<clyt>(n);
}
// what has to survive: the gates by function, and the fanouts
template <class L> static std::multiset<std::string> gates(const L& l)
{
    std::multiset<std::string> r;
    l.foreach_gate([&](const auto& n) { if (!l.is_wire(n)) r.insert(kitty::to_hex(l.node_function(n))); });
    return r;
}
template <class L> static int fanouts(const L& l)
{
    int r = 0;
    l.foreach_node([&](const auto& n) { r += !l.is_constant(n) && l.is_fanout(n); });
    return r;
}
template <class L> static std::string state(const L& l)
{
    std::string r = std::to_string(l.x()) + " " + std::to_string(l.y()) + lay::dump(l);
    return r;
}
template <class L> static std::string whole(const L& l, const topo::geo& g, const net::desc& d, const lay::opts& o = {})
{
    auto e = lay::errors(l, g, o);
    if (e.empty()) e = lay::function_errors(l, d, lay::names("in", d.pis), lay::names("out", d.pos.size()));
    if (e.empty() && l.get_layout_name() != "net") e = "it lost its name";
    return e;
}
static topo::geo cart(const clyt& l) { return {topo::CART, false, static_cast<int>(l.x()), static_cast<int>(l.y()), static_cast<int>(l.z())}; }

// the layout with an empty column inserted before column xc and an empty row before row yc (0: none), connections prolonged
static clyt stretch(const clyt& l, int xc, int yc)
{
    const auto nx = [&](int x) { return x + (xc > 0 && x >= xc); };
    const auto ny = [&](int y) { return y + (yc > 0 && y >= yc); };
    clyt r{{static_cast<uint64_t>(nx(static_cast<int>(l.x()))), static_cast<uint64_t>(ny(static_cast<int>(l.y()))), l.z()}, twoddwave_clocking<clyt>()};
    r.set_layout_name(l.get_layout_name());
    const auto to = [&](const topo::P& p) { return tile<clyt>(nx(p.x), ny(p.y), p.z); };
    l.foreach_pi([&](const auto& n) { r.create_pi(l.get_name(n), to(lay::at<clyt>(l.get_tile(n)))); });
    const auto source = [&](const topo::P& s, const topo::P& t) {
        auto sig = r.make_signal(r.get_node(to(s)));
        if (xc > 0 && s.x < xc && t.x >= xc) sig = r.create_buf(sig, {xc, ny(t.y), 0});
        if (yc > 0 && s.y < yc && t.y >= yc) sig = r.create_buf(sig, {nx(t.x), yc, 0});
        return sig;
    };
    for (int k = 0; k <= static_cast<int>(l.x() + l.y()); ++k)
        for (int x = 0; x <= k; ++x)
            for (int z = 0; z <= static_cast<int>(l.z()); ++z)
            {
                const topo::P     p{x, k - x, z};
                const tile<clyt> t(x, k - x, z);
                if (x > static_cast<int>(l.x()) || k - x > static_cast<int>(l.y()) || l.is_empty_tile(t) || l.is_pi_tile(t) || l.is_po_tile(t)) continue;
                std::vector<mockturtle::signal<clyt>> in;
                for (const auto& s : lay::children(l, l.get_node(t))) in.push_back(source(lay::at<clyt>(s), p));
                if (l.is_wire_tile(t)) r.create_buf(in.at(0), to(p));
                else r.create_node(in, l.node_function(l.get_node(t)), to(p));
            }
    l.foreach_po([&](const auto& s) {
        const auto n = l.get_node(s);
        const auto p = lay::at<clyt>(l.get_tile(n));
        r.create_po(source(lay::at<clyt>(lay::children(l, n).at(0)), p), l.get_name(n), to(p));
    });
    return r;
}

// ---- hexagonalization
static void hexa(mc::ctx& c, const net::desc& d, bool optimize)
{
    const auto w = d.str();
    c.note(w);
    const auto l = place_route(d);
    if (optimize) post_layout_optimization(l);
    const auto before = state(l);
    const io   in = std::vector<io>{io::NONE, io::EXTEND, io::EXTEND_PLANAR}[c.range(0, 2)], out = std::vector<io>{io::NONE, io::EXTEND, io::EXTEND_PLANAR}[c.range(0, 2)];
    const auto v = w + " pins " + std::to_string(static_cast<int>(in)) + std::to_string(static_cast<int>(out));
    hexagonalization_stats st{};
    hexagonalization_params ps{};
    ps.input_pin_extension = in;
    ps.output_pin_extension = out;
    std::optional<hlyt> r;
    try { r = hexagonalization<hlyt>(l, ps, &st); }
    catch (const hexagonalization_io_pin_routing_error& e)
    {
        CK(in == io::EXTEND_PLANAR || out == io::EXTEND_PLANAR, "pins cannot be extended although crossings are allowed", v + ": " + e.what());
        return;
    }
    const auto& h = *r;
    CK(state(l) == before, "the given layout changed", v);
    const topo::geo g{topo::ROWS, false, static_cast<int>(h.x()), static_cast<int>(h.y()), static_cast<int>(h.z())};
    lay::opts o;
    o.border = false;
    const auto e = whole(h, g, d, o);
    CK(e.empty(), "hexagonal layout", v + ": " + e + "; " + lay::dump(l) + " becomes " + lay::dump(h));
    CK(h.is_clocking_scheme("ROW"), "clocking", v);
    CK(gates(h) == gates(l) && fanouts(h) == fanouts(l), "gates", v);
    bool top = true, bottom = true;
    h.foreach_pi([&](const auto& n) { top &= h.get_tile(n).y == 0; });
    h.foreach_po([&](const auto& s) { bottom &= h.get_tile(h.get_node(s)).y == h.y(); });
    if (in != io::NONE) CK(top, "inputs at the top", v);
    if (out != io::NONE) CK(bottom, "outputs at the bottom", v);
    if (in == io::NONE && out == io::NONE) CK(h.num_wires() == l.num_wires() && h.num_crossings() == l.num_crossings(), "wires", v);
    if (in != io::EXTEND && out != io::EXTEND) CK(h.num_crossings() == l.num_crossings(), "crossings of planar extensions", v + lay::dump(l) + " becomes " + lay::dump(h));
    CK(st.x_size == h.x() + 1 && st.y_size == h.y() + 1 && st.num_gates == h.num_gates() && st.num_wires == h.num_wires() && st.num_crossings == h.num_crossings(), "statistics", v);
    c.step();
    c.sample(v);
}
MC_MODEL(hexagonal_one_output, "the layout of every network of one to three inputs, up to two gates and one output, with every way of extending the pins", 24) { hexa(c, net::choose(c, bd(1, 3, 0, 2, TWO, 1, 1)), false); }
MC_MODEL(hexagonal_two_outputs, "the layout of every network of one to three inputs, up to two gates and two outputs, with every way of extending the pins", 24) { hexa(c, net::choose(c, bd(1, 3, 0, c.thorough ? 2 : 1, TWO, 2, 2)), false); }
MC_MODEL(hexagonal_optimized, "the same after post-layout optimization, one or two outputs", 24) { hexa(c, net::choose(c, bd(1, 3, 0, c.thorough ? 2 : 1, TWO, 1, 2)), true); }

// ---- optimization
static std::string numbers(const clyt& l) { return std::to_string(l.num_wires() - l.num_pis() - l.num_pos()) + " wires, " + std::to_string(l.num_crossings()) + " crossings"; }
static void optimize(mc::ctx& c, const net::desc& d, int what, bool wide = false)
{
    auto w = d.str();
    auto l = place_route(d);
    if (wide)
    {
        const int xc = c.range(0, static_cast<int>(l.x())), yc = c.range(0, static_cast<int>(l.y()));
        l = stretch(l, xc, yc);
        w += " stretched before " + std::to_string(xc) + "," + std::to_string(yc);
        const auto e = whole(l, cart(l), d);
        CK(e.empty(), "harness", w + ": " + e + "; " + lay::dump(l));
    }
    c.note(w);
    const auto g0 = gates(l);
    const auto f0 = fanouts(l);
    const int  times = wide ? 1 : c.range(1, 2);
    std::string v = w;
    for (int i = 0; i < times; ++i)
    {
        const uint64_t wires = l.num_wires() - l.num_pis() - l.num_pos(), cross = l.num_crossings(), xs = l.x() + 1, ys = l.y() + 1;
        const auto before = lay::dump(l);
        if (what == 0)
        {
            v += " wiring";
            wiring_reduction_stats st{};
            wiring_reduction(l, {}, &st);
            CK(st.x_size_before == xs && st.y_size_before == ys && st.x_size_after == l.x() + 1 && st.y_size_after == l.y() + 1 && st.num_wires_before == wires && st.num_wires_after == l.num_wires() - l.num_pis() - l.num_pos(), "statistics", v);
            const double wi = wires == 0 ? 0 : std::round(10000.0 * static_cast<double>(wires - st.num_wires_after) / static_cast<double>(wires)) / 100;
            const double ai = std::round(10000.0 * static_cast<double>(xs * ys - (l.x() + 1) * (l.y() + 1)) / static_cast<double>(xs * ys)) / 100;
            CK(st.wiring_improvement == wi && st.area_improvement == ai, "improvement", v + ": " + std::to_string(st.wiring_improvement) + " instead of " + std::to_string(wi) + ", " + std::to_string(st.area_improvement) + " instead of " + std::to_string(ai));
            CK(l.num_wires() - l.num_pis() - l.num_pos() <= wires, "more wires", v);
            CK(l.num_crossings() <= cross, "more crossings", v);
            if (i == 1) CK(lay::dump(l) == before, "nothing is left to reduce", v + ": " + before + " becomes " + lay::dump(l));
        }
        else
        {
            post_layout_optimization_params ps{};
            ps.max_gate_relocations = std::vector<std::optional<uint64_t>>{std::nullopt, 0, 1, 2}[c.range(0, 3)];
            ps.optimize_pos_only    = c.flip();
            ps.planar_optimization  = c.flip();
            v += " optimize " + (ps.max_gate_relocations ? std::to_string(*ps.max_gate_relocations) : "") + (ps.optimize_pos_only ? " outputs" : "") + (ps.planar_optimization ? " planar" : "");
            post_layout_optimization_stats st{};
            post_layout_optimization(l, ps, &st);
            CK(st.x_size_before == xs && st.y_size_before == ys && st.x_size_after == l.x() + 1 && st.y_size_after == l.y() + 1 && st.num_wires_before == wires && st.num_wires_after == l.num_wires() - l.num_pis() - l.num_pos() &&
                   st.num_crossings_before == cross && st.num_crossings_after == l.num_crossings(), "statistics", v);
            const double ai = std::round(10000.0 * static_cast<double>(xs * ys - (l.x() + 1) * (l.y() + 1)) / static_cast<double>(xs * ys)) / 100;
            CK(st.area_improvement == ai, "improvement", v);
        }
        CK((l.x() + 1) * (l.y() + 1) <= xs * ys, "larger", v + ": " + before + " becomes " + lay::dump(l));
        const auto e = whole(l, cart(l), d);
        CK(e.empty(), "layout", v + ": " + e + "; " + before + " becomes " + lay::dump(l));
        CK(gates(l) == g0 && fanouts(l) == f0, "gates", v);
        CK(l.is_clocking_scheme("2DDWAVE"), "clocking", v);
    }
    c.step();
    c.sample(v + ": " + numbers(l));
}
MC_MODEL(wiring_one_output, "wiring reduction, once and twice, on the layout of every network of one to three inputs, up to two gates and one output", 24) { optimize(c, net::choose(c, bd(1, 3, 0, 2, TWO, 1, 1)), 0); }
MC_MODEL(wiring_two_outputs, "wiring reduction, once and twice, on the layout of every network of one to three inputs, up to two gates and two outputs", 24) { optimize(c, net::choose(c, bd(1, 3, 0, 2, TWO, 2, 2)), 0); }
MC_MODEL(wiring_three_gates, "wiring reduction on the layout of every network of two inputs, three gates of types NOT, AND and LT, one output", 24) { optimize(c, net::choose(c, bd(2, c.thorough ? 3 : 2, 3, 3, {net::NOT, net::AND, net::LT}, 1, 1)), 0); }
MC_MODEL(optimize_one_output, "optimization with all parameters, once and twice, of the layout of every network of one to three inputs, up to one gate (thorough two) and one output", 24) { optimize(c, net::choose(c, bd(1, 3, 0, c.thorough ? 2 : 1, TWO, 1, 1)), 1); }
MC_MODEL(optimize_two_outputs, "optimization with all parameters, once and twice, of the layout of every network of one to three inputs, up to one gate and two outputs", 24) { optimize(c, net::choose(c, bd(1, 3, 0, 1, {net::NOT, net::LT}, 2, 2)), 1); }
MC_MODEL(wiring_stretched, "wiring reduction on the layout of every network of one to three inputs, up to one gate (thorough two), one or two outputs, with an empty column and an empty row inserted anywhere", 24) { optimize(c, net::choose(c, bd(1, 3, 0, c.thorough ? 2 : 1, {net::NOT, net::LT}, 1, 2)), 0, true); }
MC_MODEL(optimize_stretched, "optimization with all parameters of the layout of every network of one or two inputs, up to one gate, one or two outputs, with an empty column and an empty row inserted anywhere", 24) { optimize(c, net::choose(c, bd(1, 2, 0, 1, {net::NOT, net::LT}, 1, 2)), 1, true); }
MC_MODEL(optimize_three_gates, "optimization, with all parameters, of the layout of every network of two inputs, two (thorough three) gates of types NOT, AND and LT, one output", 24) { optimize(c, net::choose(c, bd(2, 2, c.thorough ? 3 : 2, c.thorough ? 3 : 2, {net::NOT, net::AND, net::LT}, 1, 1)), 1); }
MC_MODEL(timeouts, "both optimizations of the layout of every network of one or two inputs, up to one gate (thorough two), one or two outputs, interrupted at every reading of the clock", 24)
{
    const auto d = net::choose(c, bd(1, 2, 0, c.thorough ? 2 : 1, {net::NOT, net::LT}, 1, 2));
    auto       w = d.str();
    const bool wiring = c.flip();
    const auto run = [&](long limit) {
        const auto l = place_route(d);
        readings = 0, runs_out = limit;
        if (wiring) wiring_reduction(l, {1000}); else post_layout_optimization(l, {std::nullopt, false, false, 1000});
        runs_out = -1;
        return l;
    };
    static std::map<std::string, long> count;
    auto& n = count[w + (wiring ? "w" : "o")];
    if (n == 0) { (void)run(-1); n = readings; }
    const int k = c.range(0, static_cast<int>(n));
    w += (wiring ? " wiring" : " optimize") + std::string(" interrupted at reading ") + std::to_string(k);
    c.note(w);
    const auto l0 = place_route(d), l = run(k);
    const auto e = whole(l, cart(l), d);
    CK(e.empty(), "layout after a timeout", w + ": " + e + "; " + lay::dump(l0) + " becomes " + lay::dump(l));
    CK(gates(l) == gates(l0) && fanouts(l) == fanouts(l0), "gates after a timeout", w);
    CK((l.x() + 1) * (l.y() + 1) <= (l0.x() + 1) * (l0.y() + 1), "larger after a timeout", w);
    c.step();
}
