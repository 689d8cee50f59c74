// Contracts of the one-dimensional quadrature tables and of the tensor
// product rules built from them.
#include <cassert>
#include "qvc.h"
// LINK: quadrature.cpp quadrature_lib.cpp bbox.cpp point.cpp tolerance.cpp
#include <algorithm>
#include <array>
#include <memory>
#include <vector>
#include <qugar/bbox.hpp>
#include <qugar/quadrature.hpp>
using namespace qugar;
namespace {
bool near(real a, real b, real tol) { return a - b <= tol && b - a <= tol; }
template<typename Q> void table(const char *in01, const char *ascending, const char *sym, const char *positive, const char *sum)
{
  const int n = qv::each("n", 1, 100);
  real s = 0.0;
  for (int i = 0; i < n; ++i) {
    const real x = Q::get_abscissa(n, i), w = Q::get_weight(n, i);
    qv_check(x >= 0.0 && x <= 1.0, in01);
    if (i > 0) qv_check(Q::get_abscissa(n, i - 1) <= x, ascending);
    qv_check(near(x + Q::get_abscissa(n, n - 1 - i), 1.0, 4.0e-16), sym);
    qv_check(near(w, Q::get_weight(n, n - 1 - i), 1.0e-16), sym);
    qv_check(w > 0.0, positive);
    s = s + w;
  }
  qv_check(near(s, 1.0, 2.0e-13), sum);
}
}// namespace
HARNESS(gauss_table)
{
  table<Gauss>("Gauss abscissae are in the unit interval", "Gauss abscissae ascend", "the Gauss rule is symmetric about the middle", "Gauss weights are positive", "Gauss weights add up to one");
}
HARNESS(tanh_sinh_table)
{
  table<TanhSinh>("tanh-sinh abscissae are in the unit interval", "tanh-sinh abscissae ascend", "the tanh-sinh rule is symmetric about the middle", "tanh-sinh weights are positive", "tanh-sinh weights add up to one");
}
// the nodes are the roots of the Legendre polynomial and the weights are
// 1 / ((1 - t^2) P'(t)^2): this is exactness up to degree 2 n - 1
HARNESS(gauss_exact)
{
  const int n = qv::each("n", 1, 100);
  real prev = -1.0;
  for (int i = 0; i < n; ++i) {
    const real x = Gauss::get_abscissa(n, i), w = Gauss::get_weight(n, i);
    const real t = 2.0 * x - 1.0;
    real p0 = 1.0, p1 = t;
    for (int k = 2; k <= n; ++k) {
      const real p2 = qv_trunc(((2 * k - 1) * t * p1 - (k - 1) * p0) / k);
      p0 = p1;
      p1 = p2;
    }
    const real d = qv_trunc(n == 1 ? 1.0 : n * (t * p1 - p0) / (t * t - 1.0));
    qv_check(near(p1 / d, 0.0, 4.0e-15), "Gauss abscissae are the roots of the Legendre polynomial");
    qv_check(near(w * (1.0 - t * t) * d * d, 1.0, 1.0e-10), "Gauss weights are those of exactness up to degree 2n-1");
    qv_check(t - prev > 1.0e-5, "Gauss abscissae are distinct");
    prev = t;
  }
}
// all nodes are the images of a uniform grid, the weights follow the derivative
HARNESS(b_tanh_sinh_structure)
{
  const int n = qv::integer("n", 2, 100);
  const real half_pi = 1.5707963267948966;
  const int j = n / 2;// first node above the middle when n is even, the middle when odd
  const bool odd = n % 2 != 0;
  const int ref = odd ? (n > 2 ? j - 1 : j) : j - 1;
  const auto u = [&](real x) { return std::asinh(std::atanh(2.0 * x - 1.0) / half_pi); };
  const real h = odd ? -u(TanhSinh::get_abscissa(n, ref)) : -2.0 * u(TanhSinh::get_abscissa(n, ref));
  real s = 0.0;
  const auto g = [&](real t) { const real c = std::cosh(half_pi * std::sinh(t)); return std::cosh(t) / (c * c); };
  for (int i = 0; i < n; ++i) s = s + g((i - (n - 1) / 2.0) * h);
  for (int i = 0; i < n; ++i) {
    const real t = (i - (n - 1) / 2.0) * h;
    const real x = TanhSinh::get_abscissa(n, i), w = TanhSinh::get_weight(n, i);
    qv_check(near(x, 0.5 + 0.5 * std::tanh(half_pi * std::sinh(t)), 1.0e-13), "tanh-sinh abscissae are the images of a uniform grid");
    qv_check(near(w, g(t) / s, 1.0e-12), "tanh-sinh weights follow the derivative of the map");
  }
}
namespace {
template<typename Q, int D> typename Quadrature<D>::Domain any_domain()
{
  if constexpr (D == 1) {
    const real a = qv_real("a0"), b = qv_real("b0");
    qv_assume(a < b);
    return Interval(a, b);
  } else {
    const auto a = qv::vec<Point<D>, D>("a"), b = qv::vec<Point<D>, D>("b");
    for (int i = 0; i < D; ++i) qv_assume(a(i) < b(i));
    return BoundBox<D>(a, b);
  }
}
template<int D> real lo(const typename Quadrature<D>::Domain &d, int i)
{
  if constexpr (D == 1) return d.min();
  else return d.min(i);
}
template<int D> real hi(const typename Quadrature<D>::Domain &d, int i)
{
  if constexpr (D == 1) return d.max();
  else return d.max(i);
}
template<typename Q, int D> void check_rule(const Quadrature<D> &q, const std::array<int, D> &n, const typename Quadrature<D>::Domain &dom)
{
  std::array<int, 3> m{ 1, 1, 1 };
  int total = 1;
  for (int d = 0; d < D; ++d) {
    m[static_cast<std::size_t>(d)] = n[static_cast<std::size_t>(d)];
    total *= n[static_cast<std::size_t>(d)];
  }
  qv_check(static_cast<int>(q.get_num_points()) == total, "the rule has the product of the points per direction");
  qv_check(static_cast<int>(q.points().size()) == total && static_cast<int>(q.weights().size()) == total, "points and weights match in number");
  real vol = 1.0;
  for (int d = 0; d < D; ++d) vol = vol * (hi<D>(dom, d) - lo<D>(dom, d));
  real sum = 0.0;
  std::size_t f = 0;
  for (int k = 0; k < m[2]; ++k)
    for (int j = 0; j < m[1]; ++j)
      for (int i = 0; i < m[0]; ++i, ++f) {
        const int t[3] = { i, j, k };
        real w = 1.0;
        for (int d = 0; d < D; ++d) {
          const int nd = m[static_cast<std::size_t>(d)];
          const real len = hi<D>(dom, d) - lo<D>(dom, d);
          qv_check_eq(q.points()[f](d), lo<D>(dom, d) + Q::get_abscissa(nd, t[d]) * len, "points are the 1D abscissae mapped to the domain, first direction fastest");
          w = w * (Q::get_weight(nd, t[d]) * len);
        }
        qv_check_eq(q.weights()[f], w, "weights are the products of the scaled 1D weights");
        sum = sum + q.weights()[f];
      }
  (void)sum;
  (void)vol;
}
template<typename Q, int D> void tp(int hi_n, bool tanh_sinh)
{
  std::array<int, D> n{};
  for (int d = 0; d < D; ++d) n[static_cast<std::size_t>(d)] = qv::each(qv::idx("n", d), 1, hi_n);
  const auto dom = any_domain<Q, D>();
  const auto q = tanh_sinh ? Quadrature<D>::create_tanh_sinh(n, dom) : Quadrature<D>::create_Gauss(n, dom);
  check_rule<Q, D>(*q, n, dom);
}
template<typename Q, int D> void unit(int hi_n, bool tanh_sinh)
{
  const int m = qv::each("m", 1, hi_n);
  std::array<int, D> n{};
  n.fill(m);
  const typename Quadrature<D>::Domain dom;
  for (int d = 0; d < D; ++d) {
    qv_check_eq(lo<D>(dom, d), 0.0, "the default domain is the unit one");
    qv_check_eq(hi<D>(dom, d), 1.0, "the default domain is the unit one");
  }
  const auto q = tanh_sinh ? Quadrature<D>::create_tanh_sinh_01(m) : Quadrature<D>::create_Gauss_01(m);
  check_rule<Q, D>(*q, n, dom);
  std::array<int, D> nn{};
  for (int d = 0; d < D; ++d) nn[static_cast<std::size_t>(d)] = 1 + d;
  const auto r = tanh_sinh ? Quadrature<D>::create_tanh_sinh_01(nn) : Quadrature<D>::create_Gauss_01(nn);
  check_rule<Q, D>(*r, nn, dom);
}
}// namespace
HARNESS(gauss1) { tp<Gauss, 1>(100, false); }
HARNESS(tanh_sinh1) { tp<TanhSinh, 1>(100, true); }
HARNESS(n_gauss2) { tp<Gauss, 2>(4, false); }
HARNESS(n_tanh_sinh2) { tp<TanhSinh, 2>(4, true); }
HARNESS(n_gauss3) { tp<Gauss, 3>(3, false); }
HARNESS(n_tanh_sinh3) { tp<TanhSinh, 3>(3, true); }
HARNESS(t_gauss2) { tp<Gauss, 2>(10, false); }
HARNESS(t_gauss3) { tp<Gauss, 3>(5, false); }
HARNESS(unit1) { unit<Gauss, 1>(100, false); }
HARNESS(unit1t) { unit<TanhSinh, 1>(100, true); }
HARNESS(n_unit2) { unit<Gauss, 2>(6, false); }
HARNESS(n_unit2t) { unit<TanhSinh, 2>(6, true); }
HARNESS(n_unit3) { unit<Gauss, 3>(4, false); }
HARNESS(n_unit3t) { unit<TanhSinh, 3>(4, true); }
namespace {
template<int D> void given()
{
  std::vector<Point<D>> p;
  std::vector<real> w;
  const int n = qv::integer("n", 1, 4);
  for (int i = 0; i < n; ++i) {
    p.push_back(qv::vec<Point<D>, D>(qv::idx(qv::idx("p", i), 0)));
    w.push_back(qv_real(qv::idx("w", i)));
  }
  Quadrature<D> q(p, w);
  qv_check(static_cast<int>(q.get_num_points()) == n, "a rule has the points it is given");
  const real r = qv_real("r");
  q.scale_weights(r);
  for (int i = 0; i < n; ++i) {
    const auto u = static_cast<std::size_t>(i);
    qv_check_eq(q.weights()[u], w[u] * r, "scale_weights multiplies every weight");
    for (int d = 0; d < D; ++d) qv_check_eq(q.points()[u](d), p[u](d), "scale_weights keeps the points");
  }
}
}// namespace
HARNESS(n_given1) { given<1>(); }
HARNESS(n_given2) { given<2>(); }
HARNESS(n_given3) { given<3>(); }
