// Stand-in for the parts of ALGLIB that fiction uses (agglomerative clustering of points).
#ifndef VERIF_STANDIN_AP_H
#define VERIF_STANDIN_AP_H
#include <cstddef>
#include <vector>
namespace alglib
{
using ae_int_t = std::ptrdiff_t;
template <typename T>
class array_2d
{
  public:
    void setlength(ae_int_t r, ae_int_t c)
    {
        cols_ = c;
        rows_ = r;
        v.assign(static_cast<std::size_t>(r * c), T{});
    }
    T&       operator()(ae_int_t i, ae_int_t j) { return v.at(static_cast<std::size_t>(i * cols_ + j)); }
    const T& operator()(ae_int_t i, ae_int_t j) const { return v.at(static_cast<std::size_t>(i * cols_ + j)); }
    ae_int_t rows() const { return rows_; }
    ae_int_t cols() const { return cols_; }

  private:
    std::vector<T> v;
    ae_int_t       rows_{0}, cols_{0};
};
using real_2d_array    = array_2d<double>;
using integer_2d_array = array_2d<ae_int_t>;
}  // namespace alglib
#endif
