// Stand-in for bill (lsils/bill): the part of its SAT interface that fiction uses.
#pragma once
#include <cstdint>
#include <variant>
#include <vector>
namespace bill
{
using var_type = uint32_t;
enum class polarities : uint8_t { positive = 0, negative = 1 };
inline constexpr polarities positive_polarity = polarities::positive;
inline constexpr polarities negative_polarity = polarities::negative;
enum class lbool_type : uint8_t { true_ = 0, false_ = 1, undef_ = 2 };
class lit_type
{
  public:
    constexpr lit_type() = default;
    constexpr lit_type(var_type v, polarities p = polarities::positive) : data{(v << 1) | static_cast<uint32_t>(p)} {}
    constexpr var_type variable() const { return data >> 1; }
    constexpr bool     is_complemented() const { return data & 1; }
    constexpr uint32_t raw() const { return data; }
    constexpr lit_type operator~() const { lit_type r; r.data = data ^ 1; return r; }
    constexpr bool operator==(const lit_type& o) const { return data == o.data; }
    constexpr bool operator!=(const lit_type& o) const { return data != o.data; }
    constexpr bool operator<(const lit_type& o) const { return data < o.data; }
  private:
    uint32_t data{0};
};
class result
{
  public:
    using model_type = std::vector<lbool_type>;
    enum class states : uint8_t { satisfiable, unsatisfiable, undefined, timeout, dirty };
    result() = default;
    result(states s, model_type m) : st{s}, m_{std::move(m)} {}
    const model_type& model() const { return m_; }
    bool is_satisfiable() const { return st == states::satisfiable; }
    explicit operator bool() const { return is_satisfiable(); }
  private:
    states st{states::undefined};
    model_type m_{};
};
enum class solvers : uint8_t
{
    bsat2,
    ghack,
    glucose_41,
    maple,
    bmcg,
};
}  // namespace bill
