// Contracts of the tensor product polynomials: Bezier and monomial forms,
// their derivatives, products, compositions, restrictions and conversions.
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/impl_utils.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <qugar/polynomial_tp.hpp>
#include <array>
#include <memory>
#include <vector>
using namespace qugar;
using namespace qugar::impl;
namespace {
template<int N> Point<N> pt(const char *b) { return qv::vec<Point<N>, N>(b); }
template<int N> TensorSizeTP<N> any_order(const char *b, int hi)
{
  TensorSizeTP<N> o(1);
  for (int i = 0; i < N; ++i) o(i) = qv::integer(qv::idx(b, i), 1, hi);
  return o;
}
template<int R> real comp(const std::conditional_t<R == 1, real, Point<R>> &v, int c)
{
  if constexpr (R == 1) return v;
  else return v(c);
}
template<int D, int R> std::vector<typename PolynomialTP<D, R>::CoefsType> any_coefs(const char *b, const TensorSizeTP<D> &o)
{
  std::vector<typename PolynomialTP<D, R>::CoefsType> c;
  const int n = static_cast<int>(o.size());
  for (int i = 0; i < n; ++i) {
    if constexpr (R == 1) c.push_back(qv_real(qv::idx(b, i)));
    else c.push_back(pt<R>(qv::idx(qv::idx(b, i), 0)));
  }
  return c;
}
real ipow(real x, int n)
{
  real r = 1.0;
  for (int i = 0; i < n; ++i) r = r * x;
  return r;
}
real choose(int n, int k)
{
  real r = 1.0;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
// the defining sums, first direction fastest
template<int D, int R> real bernstein_sum(const TensorSizeTP<D> &o, const std::vector<typename PolynomialTP<D, R>::CoefsType> &c, const Point<D> &x, int comp_id)
{
  real s = 0.0;
  int f = 0;
  std::array<int, 3> n{ 1, 1, 1 };
  for (int d = 0; d < D; ++d) n[static_cast<std::size_t>(d)] = o(d);
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i, ++f) {
        const int t[3] = { i, j, k };
        real w = 1.0;
        for (int d = 0; d < D; ++d) w = w * choose(o(d) - 1, t[d]) * ipow(x(d), t[d]) * ipow(1.0 - x(d), o(d) - 1 - t[d]);
        s += w * comp<R>(c[static_cast<std::size_t>(f)], comp_id);
      }
  return s;
}
template<int D, int R> real monomial_sum(const TensorSizeTP<D> &o, const std::vector<typename PolynomialTP<D, R>::CoefsType> &c, const Point<D> &x, int comp_id)
{
  real s = 0.0;
  int f = 0;
  std::array<int, 3> n{ 1, 1, 1 };
  for (int d = 0; d < D; ++d) n[static_cast<std::size_t>(d)] = o(d);
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i, ++f) {
        const int t[3] = { i, j, k };
        real w = 1.0;
        for (int d = 0; d < D; ++d) w = w * ipow(x(d), t[d]);
        s += w * comp<R>(c[static_cast<std::size_t>(f)], comp_id);
      }
  return s;
}
template<int R, typename V> real val(const V &v, int c)
{
  if constexpr (R == 1) return v;
  else return v(c);
}
// value, gradient and Hessian, component by component
template<int D, int R, typename F> void derivatives(const F &f, const Point<D> &x)
{
  const auto g = f.grad(x);
  const auto h = f.hessian(x);
  for (int c = 0; c < R; ++c) {
    Vector<real, D> gc;
    for (int i = 0; i < D; ++i) gc(i) = val<R>(g(i), c);
    qv::check_gradient<D>([&](const Point<D> &p) { return val<R>(f(p), c); }, x, gc, "the gradient is the derivative of the value");
    for (int i = 0, ij = 0; i < D; ++i)
      for (int j = i; j < D; ++j, ++ij) {
        const real v = val<R>(h(ij), c);
        if (qv_symbolic()) qv_check_deriv(gc(i), x(j), v, "the Hessian is the derivative of the gradient");
        else {
          const real s = 1.0e-4;
          Point<D> p(x), q(x);
          p(j) += s;
          q(j) -= s;
          const real gp = val<R>(f.grad(p)(i), c), gq = val<R>(f.grad(q)(i), c);
          const real d = (gp - gq) / (2.0 * s);
          qv_check(std::abs(d - v) <= 1.0e-4 * (1.0 + std::abs(d) + std::abs(v) + std::abs(gp)), "the Hessian is the derivative of the gradient");
        }
      }
  }
}
template<int D, int R, typename F> void interval(const F &f, const Point<D> &x)
{
  using I = ::algoim::Interval<D>;
  for (int i = 0; i < D; ++i) I::delta(i) = 0.0;
  Point<D, I> y;
  for (int i = 0; i < D; ++i) {
    ::algoim::uvector<real, D> e(0.0);
    e(i) = 1.0;
    y(i) = I(x(i), e);
  }
  const auto v = f(y);
  const auto gi = f.grad(y);
  const auto w = f(x);
  const auto g = f.grad(x);
  for (int c = 0; c < R; ++c) {
    const I vc = [&] { if constexpr (R == 1) return v; else return v(c); }();
    qv_check_eq(vc.alpha, val<R>(w, c), "interval evaluation: value");
    for (int i = 0; i < D; ++i) {
      qv_check_eq(vc.beta(i), val<R>(g(i), c), "interval evaluation: linear part is the gradient");
      const I gc = [&] { if constexpr (R == 1) return gi(i); else return gi(i)(c); }();
      qv_check_eq(gc.alpha, val<R>(g(i), c), "interval gradient: value");
    }
  }
}
template<int D, int R> void bezier(int top, bool iv)
{
  const auto o = any_order<D>("o", top);
  const auto c = any_coefs<D, R>("c", o);
  const auto x = pt<D>("x");
  const BezierTP<D, R> b(o, c), copy(b);
  const auto v = b(x);
  for (int k = 0; k < R; ++k) {
    qv_check_eq(val<R>(v, k), bernstein_sum<D, R>(o, c, x, k), "a Bezier is the sum of its coefficients times the Bernstein polynomials");
    qv_check_eq(val<R>(copy(x), k), val<R>(v, k), "a copy is the same function");
    qv_check_eq(val<R>((*b.negate())(x), k), -val<R>(v, k), "negate");
  }
  derivatives<D, R>(b, x);
  if (iv) interval<D, R>(b, x);
}
template<int D, int R> void monomials(int top, bool iv)
{
  const auto o = any_order<D>("o", top);
  const auto c = any_coefs<D, R>("c", o);
  const auto x = pt<D>("x");
  const MonomialsTP<D, R> m(o, c), copy(m);
  const auto v = m(x);
  const BezierTP<D, R> b(m);
  for (int k = 0; k < R; ++k) {
    qv_check_eq(val<R>(v, k), monomial_sum<D, R>(o, c, x, k), "monomials are the sum of coefficients times powers");
    qv_check_eq(val<R>(copy(x), k), val<R>(v, k), "a copy is the same function");
    qv_check_eq(val<R>(b(x), k), val<R>(v, k), "the Bezier form of monomials is the same function");
  }
  derivatives<D, R>(m, x);
  if (iv) interval<D, R>(m, x);
  for (int d = 0; d < D; ++d) {
    const auto p = m.create_derivative(d);
    const auto g = m.grad(x);
    for (int k = 0; k < R; ++k) {
      if (o(d) > 1) qv_check_eq(val<R>((*p)(x), k), val<R>(g(d), k), "create_derivative is the derivative");
      else qv_check_eq(val<R>((*p)(x), k), val<R>(v, k), "create_derivative of a constant direction is a clone, as documented");
    }
  }
}
template<int D, int R> void conversions(int top)
{
  // changing the image and the coefficients
  const auto o = any_order<D>("o", top);
  const auto c = any_coefs<D, R>("c", o);
  const auto x = pt<D>("x");
  const real s = qv_real("s");
  BezierTP<D, R> b(o, c), l(b);
  typename PolynomialTP<D, R>::CoefsType sh{};
  if constexpr (R == 1) sh = qv_real("sh");
  else sh = pt<R>("sh");
  l.coefs_linear_transform(s, sh);
  const auto v = b(x);
  for (int k = 0; k < R; ++k) qv_check_eq(val<R>(l(x), k), s * val<R>(v, k) + comp<R>(sh, k), "coefs_linear_transform scales and shifts the function");
  Point<R> a, e, p, q;
  for (int k = 0; k < R; ++k) {
    a(k) = qv_real(qv::idx("a", k));
    p(k) = qv_real(qv::idx("p", k));
    e(k) = a(k) + qv_real(qv::idx("e", k));
    q(k) = p(k) + qv_real(qv::idx("q", k));
    qv_assume(e(k) - a(k) > 0.015625);
    qv_assume(q(k) - p(k) > 0.015625);
  }
  b.transform_image(BoundBox<R>(a, e), BoundBox<R>(p, q));
  for (int k = 0; k < R; ++k)
    qv_check_eq(val<R>(b(x), k), p(k) + (val<R>(v, k) - a(k)) * (q(k) - p(k)) / (e(k) - a(k)), "transform_image maps the old box onto the new one");
}
template<int D, int R> void accessors(int top)
{
  const auto o = any_order<D>("o", top);
  const auto c = any_coefs<D, R>("c", o);
  BezierTP<D, R> b(o, c);
  qv_check(b.get_order() == o, "order");
  qv_check(b.get_num_coefs() == c.size() && b.get_coefs().size() == c.size(), "number of coefficients");
  int f = 0;
  for (const auto &t : TensorIndexRangeTP<D>(o)) {
    for (int k = 0; k < R; ++k) {
      qv_check_eq(comp<R>(b.get_coef(t), k), comp<R>(c[static_cast<std::size_t>(f)], k), "coefficient at a tensor index");
      qv_check_eq(comp<R>(b.get_coef(f), k), comp<R>(c[static_cast<std::size_t>(f)], k), "coefficient at a flat index");
    }
    ++f;
  }
  for (int d = 0; d < D; ++d) {
    qv_check(b.get_order(d) == o(d) && b.get_degree(d) == o(d) - 1, "order and degree per direction");
    // the array view handed to algoim has the directions reversed
    if constexpr (R == 1) qv_check(b.get_xarray().ext(D - 1 - d) == o(d), "array view");
  }
  const typename PolynomialTP<D, R>::CoefsType w = c[0];
  const BezierTP<D, R> cst(o, w);
  const auto x = pt<D>("x");
  for (int k = 0; k < R; ++k) qv_check_eq(val<R>(cst(x), k), comp<R>(w, k), "equal coefficients are a constant");
}
template<int D, int R> void algebra(int top)
{
  const auto o = any_order<D>("o", top), u = any_order<D>("u", top);
  const auto c = any_coefs<D, R>("c", o), e = any_coefs<D, R>("e", u);
  const auto x = pt<D>("x");
  const BezierTP<D, R> a(o, c), b(u, e);
  const auto va = a(x), vb = b(x);
  const auto s = a + b, d = a - b, p = a * b;
  for (int k = 0; k < R; ++k) {
    qv_check_eq(val<R>((*s)(x), k), val<R>(va, k) + val<R>(vb, k), "sum of Beziers");
    qv_check_eq(val<R>((*d)(x), k), val<R>(va, k) - val<R>(vb, k), "difference of Beziers");
    qv_check_eq(val<R>((*p)(x), k), val<R>(va, k) * val<R>(vb, k), "product of Beziers");
  }
  TensorSizeTP<D> r(1);
  bool ge = true;
  for (int i = 0; i < D; ++i) {
    const int m = std::max(o(i), u(i));
    qv_check(s->get_order(i) == m && d->get_order(i) == m, "the sum has the larger order");
    qv_check(p->get_degree(i) == a.get_degree(i) + b.get_degree(i), "degrees add in a product");
    ge = ge && u(i) >= o(i);
  }
  if (ge) {
    const auto q = a.raise_order(u);
    qv_check(q->get_order() == u, "raised order");
    for (int k = 0; k < R; ++k) qv_check_eq(val<R>((*q)(x), k), val<R>(va, k), "raising the order keeps the function");
  }
}
template<int D, int R, typename B> void facets(const B &b)
{
  const auto x = pt<D - 1>("x");
  for (int f = 0; f < 2 * D; ++f) {
    const auto g = b.extract_facet(f);
    Point<D> y;
    for (int i = 0, j = 0; i < D; ++i) y(i) = i == f / 2 ? static_cast<real>(f % 2) : x(j++);
    for (int k = 0; k < R; ++k) qv_check_eq(val<R>((*g)(x), k), val<R>(b(y), k), "a facet is the restriction to it");
  }
}
template<int D> void rescale(int top)
{
  const auto o = any_order<D>("o", top);
  const auto c = any_coefs<D, 1>("c", o);
  const auto x = pt<D>("x"), a = pt<D>("a");
  Point<D> e;
  for (int i = 0; i < D; ++i) {
    const real l = qv_real(qv::idx("l", i));
    qv_assume(l > 0.015625);
    e(i) = a(i) + l;
  }
  BezierTP<D, 1> b(o, c), r(b);
  const BoundBox<D> box(a, e);
  r.rescale_domain(box);
  Point<D> y;
  for (int i = 0; i < D; ++i) y(i) = a(i) + x(i) * (e(i) - a(i));
  qv_check_eq(r(x), b(y), "rescale_domain is the restriction to the box");
}
template<int D> void sign(int top)
{
  const auto o = any_order<D>("o", top);
  const auto c = any_coefs<D, 1>("c", o);
  const BezierTP<D, 1> b(o, c);
  const auto s = b.sign();
  for (const auto v : c) {
    if (s == FuncSign::positive) qv_check(v > 0.0, "a Bezier called positive has positive coefficients");
    if (s == FuncSign::negative) qv_check(v < 0.0, "a Bezier called negative has negative coefficients");
  }
}
template<int S, int D, int R> void composition(int lt, int rt)
{
  const auto o = any_order<D>("o", lt);
  const auto u = any_order<S>("u", rt);
  const auto c = any_coefs<D, R>("c", o);
  const auto e = any_coefs<S, D>("e", u);
  const auto x = pt<S>("x");
  const BezierTP<D, R> a(o, c);
  const BezierTP<S, D> b(u, e);
  const auto p = a.template compose<S>(b);
  Point<D> y;
  const auto w = b(x);
  for (int i = 0; i < D; ++i) y(i) = val<D>(w, i);
  for (int k = 0; k < R; ++k) qv_check_eq(val<R>((*p)(x), k), val<R>(a(y), k), "composition of Beziers");
}
}// namespace
HARNESS(n_bezier11) { bezier<1, 1>(6, true); }
HARNESS(n_bezier12) { bezier<1, 2>(4, true); }
HARNESS(n_bezier21) { bezier<2, 1>(4, true); }
HARNESS(n_bezier22) { bezier<2, 2>(3, false); }
HARNESS(n_bezier31) { bezier<3, 1>(3, true); }
HARNESS(n_bezier23) { bezier<2, 3>(2, true); }
HARNESS(n_bezier33) { bezier<3, 3>(2, false); }
HARNESS(n_monomials11) { monomials<1, 1>(6, true); }
HARNESS(n_monomials12) { monomials<1, 2>(4, true); }
HARNESS(n_monomials21) { monomials<2, 1>(4, true); }
HARNESS(n_monomials31) { monomials<3, 1>(3, true); }
HARNESS(n_monomials22) { monomials<2, 2>(3, false); }
HARNESS(n_monomials33) { monomials<3, 3>(2, false); }
HARNESS(n_conversions11) { conversions<1, 1>(4); }
HARNESS(n_conversions22) { conversions<2, 2>(3); }
HARNESS(n_conversions31) { conversions<3, 1>(2); }
HARNESS(n_conversions33) { conversions<3, 3>(2); }
HARNESS(n_accessors11) { accessors<1, 1>(5); }
HARNESS(n_accessors21) { accessors<2, 1>(4); }
HARNESS(n_accessors31) { accessors<3, 1>(3); }
HARNESS(n_accessors32) { accessors<3, 2>(3); }
HARNESS(n_algebra11) { algebra<1, 1>(5); }
HARNESS(n_algebra12) { algebra<1, 2>(3); }
HARNESS(n_algebra21) { algebra<2, 1>(3); }
HARNESS(n_algebra22) { algebra<2, 2>(2); }
HARNESS(n_algebra31) { algebra<3, 1>(2); }
HARNESS(t_algebra31)
{
  const auto o = any_order<3>("o", 3), u = any_order<3>("u", 2);
  const auto c = any_coefs<3, 1>("c", o), e = any_coefs<3, 1>("e", u);
  const auto x = pt<3>("x");
  const BezierTP<3, 1> a(o, c), b(u, e);
  qv_check_eq((*(a * b))(x), a(x) * b(x), "product of Beziers");
}
HARNESS(n_facets21) { const auto o = any_order<2>("o", 4); facets<2, 1>(BezierTP<2, 1>(o, any_coefs<2, 1>("c", o))); }
HARNESS(n_facets22) { const auto o = any_order<2>("o", 3); facets<2, 2>(BezierTP<2, 2>(o, any_coefs<2, 2>("c", o))); }
HARNESS(n_facets31) { const auto o = any_order<3>("o", 3); facets<3, 1>(BezierTP<3, 1>(o, any_coefs<3, 1>("c", o))); }
HARNESS(n_mon_facets21) { const auto o = any_order<2>("o", 4); facets<2, 1>(MonomialsTP<2, 1>(o, any_coefs<2, 1>("c", o))); }
HARNESS(n_mon_facets31) { const auto o = any_order<3>("o", 3); facets<3, 1>(MonomialsTP<3, 1>(o, any_coefs<3, 1>("c", o))); }
HARNESS(n_mon_facets22) { const auto o = any_order<2>("o", 3); facets<2, 2>(MonomialsTP<2, 2>(o, any_coefs<2, 2>("c", o))); }
HARNESS(n_rescale1) { rescale<1>(4); }
HARNESS(n_rescale2) { rescale<2>(3); }
HARNESS(n_rescale3) { rescale<3>(2); }
HARNESS(n_sign1) { sign<1>(3); }
HARNESS(n_sign2) { sign<2>(2); }
HARNESS(n_compose11) { composition<1, 1, 1>(4, 3); }
HARNESS(n_compose12) { composition<1, 2, 1>(3, 2); }
HARNESS(n_compose21) { composition<2, 1, 1>(3, 2); }
HARNESS(n_compose22) { composition<2, 2, 1>(2, 2); }
HARNESS(n_compose13) { composition<1, 3, 1>(2, 2); }
HARNESS(n_compose33) { composition<3, 3, 1>(2, 1); }
HARNESS(n_compose122) { composition<1, 2, 2>(2, 2); }
HARNESS(t_compose23) { composition<2, 3, 1>(2, 2); }
HARNESS(n_bernstein)
{
  const int order = qv::integer("order", 1, 7), der = qv::integer("der", 0, 8);
  const real x = qv_real("x");
  std::vector<real> v(static_cast<std::size_t>(order));
  evaluate_Bernstein(x, order, der, v);
  qv_check(static_cast<int>(v.size()) == order, "one value per basis function");
  const int n = order - 1;
  for (int i = 0; i < order; ++i) {
    // der-th derivative of B_{i,n}: falling factorial times a difference of Bernstein polynomials
    real s = 0.0;
    if (der <= n) {
      real f = 1.0;
      for (int k = 0; k < der; ++k) f = f * (n - k);
      for (int k = 0; k <= der; ++k) {
        const int j = i - k;
        if (j < 0 || j > n - der) continue;
        s += ((der - k) % 2 == 0 ? 1.0 : -1.0) * choose(der, k) * choose(n - der, j) * ipow(x, j) * ipow(1.0 - x, n - der - j);
      }
      s = s * f;
    }
    qv_check_eq(v[static_cast<std::size_t>(i)], s, "derivatives of the Bernstein polynomials");
  }
}
