// Contracts of the Lagrange basis functions.
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <algoim/bernstein.hpp>
#include <array>
#include <vector>
using namespace qugar;
using namespace qugar::impl;
namespace {
real node(int i, int n, bool ch) { return ch ? ::algoim::bernstein::modifiedChebyshevNode(i, n) : static_cast<real>(i) / (n - 1); }
bool close(real a, real b) { return a - b < 1.0e-9 && b - a < 1.0e-9; }
void same(real a, real b, bool exact, const char *tag)
{
  if (exact) qv_check_eq(a, b, tag);
  else qv_check(close(a, b), tag);
}
// cardinal functions of the documented nodes, and exact reproduction of
// polynomials at every point
void basis1(int n, bool ch)
{
  const bool exact = !ch || n <= 3;
  const real x = qv_real("x");
  if (!exact) qv_assume(x >= 0.0 && x <= 1.0);
  std::vector<real> l, d, c;
  evaluate_Lagrange_basis_1D(x, n, ch, l);
  evaluate_Lagrange_basis_der_1D(x, n, ch, d);
  qv_check(static_cast<int>(l.size()) == n && static_cast<int>(d.size()) == n, "one value per node");
  for (int j = 0; j < n; ++j) {
    evaluate_Lagrange_basis_1D(node(j, n, ch), n, ch, c);
    for (int i = 0; i < n; ++i) same(c[static_cast<std::size_t>(i)], i == j ? 1.0 : 0.0, exact, "one at its own node and zero at the others");
  }
  if (exact)
    for (int i = 0; i < n; ++i) {
      real p = 1.0;
      for (int j = 0; j < n; ++j)
        if (j != i) p = p * (x - node(j, n, ch)) / (node(i, n, ch) - node(j, n, ch));
      qv_check_eq(l[static_cast<std::size_t>(i)], p, "Lagrange polynomial");
    }
  for (int k = 0; k < n; ++k) {
    real s = 0.0, t = 0.0, w = 1.0, dw = 0.0;
    for (int i = 0; i < n; ++i) {
      real q = 1.0;
      for (int e = 0; e < k; ++e) q = q * node(i, n, ch);
      s += l[static_cast<std::size_t>(i)] * q;
      t += d[static_cast<std::size_t>(i)] * q;
    }
    for (int e = 0; e < k; ++e) {
      dw = k * w;
      w = w * x;
    }
    if (exact) {
      qv_check_eq(s, w, "interpolation reproduces polynomials");
      qv_check_eq(t, dw, "derivatives of the interpolation are those of the polynomial");
    }
  }
}
template<int N> void tensor(int top, bool ch)
{
  TensorSizeTP<N> o(1);
  for (int i = 0; i < N; ++i) o(i) = qv::integer(qv::idx("o", i), 2, top);
  const auto x = qv::vec<Point<N>, N>("x");
  std::vector<real> b;
  Vector<std::vector<real>, N> d;
  evaluate_Lagrange_basis<N>(x, o, ch, b);
  evaluate_Lagrange_derivative<N>(x, o, ch, d);
  std::array<std::vector<real>, N> v, e;
  for (int i = 0; i < N; ++i) {
    evaluate_Lagrange_basis_1D(x(i), o(i), ch, v[static_cast<std::size_t>(i)]);
    evaluate_Lagrange_basis_der_1D(x(i), o(i), ch, e[static_cast<std::size_t>(i)]);
  }
  qv_check(b.size() == o.size(), "one value per node");
  int f = 0;
  std::array<int, 3> n{ 1, 1, 1 };
  for (int i = 0; i < N; ++i) n[static_cast<std::size_t>(i)] = o(i);
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i, ++f) {
        const std::size_t t[3] = { static_cast<std::size_t>(i), static_cast<std::size_t>(j), static_cast<std::size_t>(k) };
        real w = 1.0;
        for (std::size_t a = 0; a < N; ++a) w = w * v[a][t[a]];
        qv_check_eq(b[static_cast<std::size_t>(f)], w, "tensor product of the 1D functions, first direction fastest");
        for (std::size_t g = 0; g < N; ++g) {
          real u = 1.0;
          for (std::size_t a = 0; a < N; ++a) u = u * (a == g ? e[a][t[a]] : v[a][t[a]]);
          qv_check_eq(d(static_cast<int>(g))[static_cast<std::size_t>(f)], u, "partial derivative of the tensor product");
        }
      }
}
}// namespace
HARNESS(n_lagrange) { basis1(qv::integer("order", 2, 6), false); }
HARNESS(n_lagrange_chebyshev) { basis1(qv::integer("order", 2, 9), true); }
HARNESS(n_lagrange1) { tensor<1>(4, false); }
HARNESS(n_lagrange2) { tensor<2>(4, false); }
HARNESS(n_lagrange3) { tensor<3>(3, false); }
HARNESS(n_lagrange2_chebyshev) { tensor<2>(4, true); }
