// C43: rounding, absolute values, weighted sums.
#include "mc.hpp"
#include <fiction/utils/math_utils.hpp>
#include <cmath>
#include <limits>

using namespace fiction;

MC_MODEL(rounding, "all k/8 with |k| <= 4000, 0..6 decimals, double and float", 8)
{
    const int k = c.range(-4000, 4000), n = c.choose(7);
    const double x = k / 8.0;  // exactly representable, ties included
    const double r = round_to_n_decimal_places(x, static_cast<uint64_t>(n));
    const std::string what = std::to_string(x) + " to " + std::to_string(n);
    c.step(3);
    // exact reference in integers: x * 10^n = k * 10^n / 8
    long long p = 1;
    for (int i = 0; i < n; ++i) p *= 10;
    const long long num = static_cast<long long>(k) * p;
    long long q = std::llabs(num) / 8;
    if (2 * (std::llabs(num) % 8) >= 8) ++q;  // half away from zero
    if (num < 0) q = -q;
    c.check(std::abs(r - static_cast<double>(q) / static_cast<double>(p)) <= 1e-12 * std::max(1.0, std::abs(x)), "rounding " + what, std::to_string(r));
    c.check(round_to_n_decimal_places(r, static_cast<uint64_t>(n)) == r, "rounding twice " + what);
    c.check(round_to_n_decimal_places(-x, static_cast<uint64_t>(n)) == -r, "rounding is not symmetric " + what);
    const float f = round_to_n_decimal_places(static_cast<float>(x), static_cast<uint64_t>(n));
    c.check(std::abs(static_cast<double>(f) - static_cast<double>(q) / static_cast<double>(p)) <= 1e-6 * std::max(1.0, std::abs(x)), "float rounding " + what, std::to_string(f));
    c.state(mc::hash_mix(static_cast<uint64_t>(k + 5000), n));
    c.sample(what + " -> " + std::to_string(r));
}
MC_MODEL(rounding_extremes, "integers around 2^53 and the type limits, huge and tiny reals, 0..400 decimals", 1)
{
    static const std::vector<int64_t> is{0, 1, -1, (1ll << 53) + 1, -(1ll << 53) - 1, (1ll << 62) + 3, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
    static const std::vector<double> ds{0.0, 1e300, -1e300, 1e15, 123456789.125, 5e-324, 1e-10};
    static const std::vector<int> ns{0, 1, 2, 5, 20, 308, 309, 400};
    const auto i = c.pick(is);
    const auto d = c.pick(ds);
    const auto n = static_cast<uint64_t>(c.pick(ns));
    c.step(3);
    c.check(round_to_n_decimal_places(i, n) == i, "integer changes: " + std::to_string(i) + " to " + std::to_string(n));
    c.check(round_to_n_decimal_places(static_cast<uint64_t>(i), n) == static_cast<uint64_t>(i), "unsigned integer changes");
    c.check(round_to_n_decimal_places(static_cast<int8_t>(i), n) == static_cast<int8_t>(i), "small integer changes");
    const double r = round_to_n_decimal_places(d, n);
    c.check(std::isfinite(r), "finite number rounds to a non-finite one: " + std::to_string(d) + " to " + std::to_string(n));
    c.check(std::abs(r - d) <= std::max(0.5 * std::pow(10.0, -static_cast<double>(n)) * 1.0001, std::abs(d) * 1e-12), "rounds too far: " + std::to_string(d) + " to " + std::to_string(n), std::to_string(r));
    c.state(mc::hash_mix(static_cast<uint64_t>(i), mc::hash_mix(static_cast<uint64_t>(std::log(std::abs(d) + 1) * 1000), n)));
}
template <class T>
static void absolute(mc::ctx& c)
{
    using L = std::numeric_limits<T>;
    const int k = c.range(-130, 130), base = c.choose(3);
    const __int128 v = (base == 0 ? static_cast<__int128>(0) : base == 1 ? static_cast<__int128>(L::max()) : static_cast<__int128>(L::min())) + k;
    if (v > L::max() || v < L::min() || (L::is_signed && v == L::min())) c.prune();
    const T r = integral_abs(static_cast<T>(v));
    c.step();
    c.check(static_cast<__int128>(r) == (v < 0 ? -v : v), "absolute value of " + std::to_string(static_cast<long long>(v)));
    c.state(mc::hash_mix(sizeof(T) * 2 + L::is_signed, static_cast<uint64_t>(v)));
}
MC_MODEL(absolute_values, "8 integral types, 261 values around zero and both limits (the unrepresentable minimum excluded)", 1)
{
    switch (c.choose(8))
    {
        case 0: absolute<int8_t>(c); break;
        case 1: absolute<int16_t>(c); break;
        case 2: absolute<int32_t>(c); break;
        case 3: absolute<int64_t>(c); break;
        case 4: absolute<uint8_t>(c); break;
        case 5: absolute<uint16_t>(c); break;
        case 6: absolute<uint32_t>(c); break;
        default: absolute<uint64_t>(c); break;
    }
}
MC_MODEL(weighted_sum, "all pairs of vectors of length <= 3 over 4 values; mismatching lengths are rejected", 1)
{
    static const std::vector<double> vs{-1.0, 0.0, 0.5, 2.0};
    std::vector<double> a, w;
    const int n = c.choose(4), m = c.choose(4);
    for (int i = 0; i < n; ++i) a.push_back(c.pick(vs));
    for (int i = 0; i < m; ++i) w.push_back(n == m ? c.pick(vs) : 1.0);
    c.step();
    double want = 0, got = 0;
    bool threw = false;
    for (int i = 0; i < std::min(n, m); ++i) want += a[i] * w[i];
    try { got = cost_function_chi(a, w); } catch (const std::invalid_argument&) { threw = true; }
    c.check(threw == (n != m), "length mismatch handling");
    if (!threw) c.check(std::abs(got - want) < 1e-12, "weighted sum");
    c.state(mc::hash_mix(n, static_cast<uint64_t>((want + 50) * 8)));
}
