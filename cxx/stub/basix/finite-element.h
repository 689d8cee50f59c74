// Stand-in of basix's finite element: remembers what it was created with; its
// tabulation is an arbitrary-looking linear function of that, of the position in
// the table and of the point, so that two tables agree only if they are of the
// same element, at the same points and in the same layout. Creating an element
// is refused, as basix does, by exceptions.
#pragma once
#include <array>
#include <cstddef>
#include <span>
#include <stdexcept>
#include <vector>
namespace basix {
namespace element {
enum class family : int {};
enum class lagrange_variant : int {};
enum class dpc_variant : int {};
}// namespace element
namespace cell {
enum class type : int {};
}
namespace qv_stub {
inline int created = 0, tabulated = 0;
struct refused { int why; };
inline std::size_t derivatives(int gdim, std::size_t nd)
{
  std::size_t n = 1;
  for (int i = 1; i <= gdim; ++i) n = n * (nd + static_cast<std::size_t>(i)) / static_cast<std::size_t>(i);
  return n;
}
}// namespace qv_stub
template<typename T> class FiniteElement
{
public:
  std::array<int, 6> key;
  std::vector<T> coefficients;// owns memory, as basix's
  FiniteElement(const std::array<int, 6> &k) : key(k), coefficients(3)
  {
    for (int i = 0; i < 3; ++i) coefficients[static_cast<std::size_t>(i)] = static_cast<T>(k[2]) * (i + 1) + static_cast<T>(k[0]) * 7 + static_cast<T>(k[1]) * 11 + static_cast<T>(k[3]) * 13 + static_cast<T>(k[4]) * 17 + static_cast<T>(k[5]) * 19;
  }
  static constexpr int gdim = 2;
  static constexpr std::size_t ndofs = 3, value_size = 2;
  std::array<std::size_t, 4> tabulate_shape(std::size_t nd, std::size_t npts) const
  {
    if (nd > 3) throw std::runtime_error("too many derivatives");
    return { qv_stub::derivatives(gdim, nd), npts, ndofs, value_size };
  }
  T value(std::size_t d, std::size_t dof, std::size_t v, const T *x) const
  {
    return coefficients[dof] * (static_cast<T>(d) * 23 + static_cast<T>(v) * 29 + x[0] * 31 + x[1] * 37 + 1);
  }
  void tabulate(int nd, std::span<const T> x, std::array<std::size_t, 2> xshape, std::span<T> basis) const
  {
    ++qv_stub::tabulated;
    const auto s = tabulate_shape(static_cast<std::size_t>(nd), xshape[0]);
    if (xshape[1] != static_cast<std::size_t>(gdim)) throw std::runtime_error("wrong dimension");
    if (x.size() != xshape[0] * xshape[1]) throw std::runtime_error("wrong points");
    if (basis.size() != s[0] * s[1] * s[2] * s[3]) throw 3;
    for (std::size_t d = 0; d < s[0]; ++d)
      for (std::size_t p = 0; p < s[1]; ++p)
        for (std::size_t f = 0; f < s[2]; ++f)
          for (std::size_t v = 0; v < s[3]; ++v)
            basis[((d * s[1] + p) * s[2] + f) * s[3] + v] = value(d, f, v, &x[p * 2]);
  }
};
template<typename T>
FiniteElement<T> create_element(element::family family, cell::type cell, int degree, element::lagrange_variant lv, element::dpc_variant dv, bool discontinuous)
{
  if (degree < 0) throw std::runtime_error("degree");
  if (degree > 9) throw qv_stub::refused{ degree };
  ++qv_stub::created;
  return FiniteElement<T>({ static_cast<int>(family), static_cast<int>(cell), degree, static_cast<int>(lv), static_cast<int>(dv), discontinuous ? 1 : 0 });
}
}// namespace basix
