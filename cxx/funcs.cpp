// Contracts of the implicit function library: documented formulas, exact
// gradients and Hessians, first-order interval evaluation.
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/tpms_lib.hpp>
#include <array>
#include <memory>
#include <vector>
using namespace qugar;
using namespace qugar::impl;
namespace fn = qugar::impl::funcs;
namespace tp = qugar::impl::tpms;
namespace {
template<int N> Point<N> pt(const char *b) { return qv::vec<Point<N>, N>(b); }
// gradient and Hessian are the derivatives of the value at any point x; the
// interval version is the same function to first order
template<int N, typename F> void derivatives(const F &f, const Point<N> &x, bool second = true)
{
  const Vector<real, N> g = f.grad(x);
  qv::check_gradient<N>([&](const Point<N> &p) { return f(p); }, x, g, "the gradient is the derivative of the value");
  if (second) {
    const auto h = f.hessian(x);
    for (int i = 0, ij = 0; i < N; ++i)
      for (int j = i; j < N; ++j, ++ij) {
        Vector<real, N> row;
        // only entry j of row i is compared
        const real v = h(ij);
        if (qv_symbolic()) qv_check_deriv(g(i), x(j), v, "the Hessian is the derivative of the gradient");
        else {
          const real s = 1.0e-4;
          Point<N> p(x), q(x);
          p(j) += s;
          q(j) -= s;
          const real d = (f.grad(p)(i) - f.grad(q)(i)) / (2.0 * s);
          qv_check(std::abs(d - v) <= 1.0e-4 * (1.0 + std::abs(d) + std::abs(v) + std::abs(f.grad(p)(i))), "the Hessian is the derivative of the gradient");
        }
      }
  }
}
template<int N, typename F> void interval(const F &f, const Point<N> &x, bool second = true)
{
  using I = ::algoim::Interval<N>;
  for (int i = 0; i < N; ++i) I::delta(i) = 0.0;
  Point<N, I> y;
  for (int i = 0; i < N; ++i) {
    ::algoim::uvector<real, N> e(0.0);
    e(i) = 1.0;
    y(i) = I(x(i), e);
  }
  const I v = f(y);
  const auto gi = f.grad(y);
  const Vector<real, N> g = f.grad(x);
  qv_check_eq(v.alpha, f(x), "interval evaluation: value");
  for (int i = 0; i < N; ++i) {
    qv_check_eq(v.beta(i), g(i), "interval evaluation: linear part is the gradient");
    qv_check_eq(I(gi(i)).alpha, g(i), "interval gradient: value");
  }
}
// a general linear map, well away from singular
template<int N> AffineTransf<N> any_transf(const char *b)
{
  const auto c = qv::vec<Vector<real, N *(N + 1)>, N *(N + 1)>(b);
  if constexpr (N == 2) {
    const real d = c(0) * c(3) - c(1) * c(2);
    qv_assume(d > 0.0625 || d < -0.0625);
  } else {
    const real d = c(0) * (c(4) * c(8) - c(5) * c(7)) - c(1) * (c(3) * c(8) - c(5) * c(6)) + c(2) * (c(3) * c(7) - c(4) * c(6));
    qv_assume(d > 0.0625 || d < -0.0625);
  }
  return AffineTransf<N>(c);
}
real above_zero(const char *n)
{
  const real r = qv_real(n);
  qv_assume(r > 0.0625);
  return r;
}
Point<3> direction(const char *n)
{
  const auto a = pt<3>(n);
  qv_assume(norm(a) > 0.0625);
  return a;
}
// ---------------------------------------------------------------- primitives
template<int N> void sphere()
{
  const auto x = pt<N>("x"), c = pt<N>("c");
  const real r = above_zero("r");
  const fn::Sphere<N> f(r, c), f0(r);
  const Point<N> d = x - c;
  qv_check_eq(f(x), dot(d, d) - r * r, "sphere: squared distance to the centre minus squared radius");
  qv_check_eq(f0(x), dot(x, x) - r * r, "sphere: default centre");
  qv_check_eq(f.radius(), r, "radius");
  for (int i = 0; i < N; ++i) qv_check_eq(f.center()(i), c(i), "centre");
  derivatives<N>(f, x);
  interval<N>(f, x);
}
template<int N> void ellipsoid()
{
  const auto x = pt<N>("x");
  Point<N> s;
  for (int i = 0; i < N; ++i) s(i) = above_zero(qv::idx("s", i));
  const auto o = pt<N>("o");
  const RefSystem<N> sys(o);
  const fn::Ellipsoid<N> f(s, sys), f0(s);
  real v = -1.0, v0 = -1.0;
  for (int i = 0; i < N; ++i) {
    const real q = (x(i) - o(i)) / s(i), q0 = x(i) / s(i);
    v += q * q;
    v0 += q0 * q0;
  }
  qv_check_eq(f(x), v, "ellipsoid aligned with the axes");
  qv_check_eq(f0(x), v0, "ellipsoid: default system");
  derivatives<N>(f, x);
  interval<N>(f, x);
}
template<int N> void plane()
{
  const auto x = pt<N>("x"), o = pt<N>("o"), n = pt<N>("n");
  const fn::Plane<N> f(o, n), f0;
  qv_check_eq(f(x), dot(x - o, n), "plane: projection on the normal");
  qv_check_eq(f0(x), x(0), "plane: default");
  derivatives<N>(f, x);
  interval<N>(f, x);
}
template<int N> void constant()
{
  const auto x = pt<N>("x");
  const real v = qv_real("v");
  const fn::Constant<N> f(v);
  qv_check_eq(f(x), v, "constant");
  qv_check_eq(f.value(), v, "constant");
  derivatives<N>(f, x);
  interval<N>(f, x);
}
// ------------------------------------------------------------- combinations
template<int N> fn::DimLinear<N> any_linear(const char *n)
{
  std::array<real, static_cast<std::size_t>(1 << N)> c{};
  for (int i = 0; i < 1 << N; ++i) c[static_cast<std::size_t>(i)] = qv_real(qv::idx(n, i));
  return fn::DimLinear<N>(c);
}
template<int N> void dim_linear()
{
  const auto x = pt<N>("x");
  std::array<real, static_cast<std::size_t>(1 << N)> c{};
  for (int i = 0; i < 1 << N; ++i) c[static_cast<std::size_t>(i)] = qv_real(qv::idx("c", i));
  const fn::DimLinear<N> f(c);
  // lexicographical corners
  real v = 0.0;
  for (int i = 0; i < 1 << N; ++i) {
    real w = 1.0;
    for (int d = 0; d < N; ++d) w = w * (((i >> d) & 1) != 0 ? x(d) : 1.0 - x(d));
    v += w * c[static_cast<std::size_t>(i)];
  }
  qv_check_eq(f(x), v, "multilinear interpolation of the corner values");
  derivatives<N>(f, x);
  interval<N>(f, x);
}
template<int N> void dim_linear_transf()
{
  const auto x = pt<N>("x");
  std::array<real, static_cast<std::size_t>(1 << N)> c{};
  for (int i = 0; i < 1 << N; ++i) c[static_cast<std::size_t>(i)] = N == 2 || i == 1 || i == 6 || i == 3 ? qv_real(qv::idx("c", i)) : 0.5 * i;
  const auto t = any_transf<N>("t");
  const fn::DimLinear<N> f(c), p = f;
  const fn::DimLinear<N> g(c, t);
  qv_check_eq(g(t.transform_point(x)), f(x), "transformed function: value at the image of a point");
  derivatives<N>(g, x);
}
template<int N> void transformed()
{
  const auto x = pt<N>("x"), o = pt<N>("o");
  const auto t = any_transf<N>("t");
  const auto base = std::make_shared<const fn::Sphere<N>>(1.5, o);
  const fn::TransformedFunction<N> f(base, t);
  qv_check_eq(f(t.transform_point(x)), (*base)(x), "transformed function: value at the image of a point");
  derivatives<N>(f, x);
  interval<N>(f, x);
}
template<int N> void combined()
{
  const auto x = pt<N>("x");
  const auto a = std::make_shared<const fn::DimLinear<N>>(any_linear<N>("a"));
  const auto b = std::make_shared<const fn::DimLinear<N>>(any_linear<N>("b"));
  const fn::AddFunctions<N> s(a, b);
  const fn::SubtractFunctions<N> d(a, b);
  const fn::Negative<N> n(a);
  qv_check_eq(s(x), (*a)(x) + (*b)(x), "sum");
  qv_check_eq(d(x), (*a)(x) - (*b)(x), "difference, left minus right");
  qv_check_eq(n(x), -(*a)(x), "negative");
  derivatives<N>(s, x);
  derivatives<N>(d, x);
  derivatives<N>(n, x);
  interval<N>(s, x);
  interval<N>(d, x);
  interval<N>(n, x);
}
template<int N> void square()
{
  const auto x = pt<N>("x");
  const fn::Square<N> f;
  real m = std::abs(x(0)) - 1.0;
  for (int i = 1; i < N; ++i) m = std::max(m, std::abs(x(i)) - 1.0);
  qv_check_eq(f(x), m, "square: largest |x_i| - 1");
  // off the kinks the gradient is the derivative
  for (int i = 0; i < N; ++i) {
    qv_assume(x(i) > 0.015625 || x(i) < -0.015625);
    for (int j = 0; j < i; ++j) qv_assume(std::abs(x(i)) - std::abs(x(j)) > 0.015625 || std::abs(x(i)) - std::abs(x(j)) < -0.015625);
  }
  derivatives<N>(f, x, false);
  interval<N>(f, x);
}
template<int N> void same_point(const Point<N> &a, const Point<N> &b, const char *tag)
{
  for (int i = 0; i < N; ++i) qv_check_eq(a(i), b(i), tag);
}
template<typename F> void axis_of(const F &f, const Point<3> &a)
{
  same_point<3>(f.axis() * norm(a), a, "the axis is a unit vector along the one given");
}
// what primitives say about themselves, both in their general and Bezier forms
template<int N> void asked()
{
  const auto o = pt<N>("o"), n = pt<N>("n");
  Point<N> s;
  for (int i = 0; i < N; ++i) s(i) = above_zero(qv::idx("s", i));
  qv_assume(norm(n) > 0.0625);
  const RefSystem<N> sys(o);
  const fn::Ellipsoid<N> e(s, sys), e0(s);
  same_point<N>(e.semi_axes(), s, "semi-axes");
  same_point<N>(e.ref_system().get_origin(), o, "system of the ellipsoid");
  same_point<N>(e0.ref_system().get_origin(), Point<N>(0.0), "default system of the ellipsoid");
  const fn::Plane<N> p(o, n), p0;
  same_point<N>(p.origin(), o, "origin of the plane");
  same_point<N>(p.normal(), n, "normal of the plane");
  same_point<N>(p0.origin(), Point<N>(0.0), "default origin of the plane");
}
void asked_with_axis()
{
  const auto o = pt<3>("o"), a = direction("a");
  const auto c = pt<2>("c");
  const real r = above_zero("r"), R = r + above_zero("h");
  const fn::Cylinder y(r, o, a);
  qv_check_eq(y.radius(), r, "radius of the cylinder");
  same_point<3>(y.origin(), o, "origin of the cylinder");
  axis_of(y, a);
  const fn::Torus t(R, r, o, a);
  qv_check_eq(t.major_radius(), R, "major radius of the torus");
  qv_check_eq(t.minor_radius(), r, "minor radius of the torus");
  same_point<3>(t.center(), o, "centre of the torus");
  axis_of(t, a);
  const fn::Annulus u(r, R, c);
  qv_check_eq(u.inner_radius(), r, "inner radius of the annulus");
  qv_check_eq(u.outer_radius(), R, "outer radius of the annulus");
  same_point<2>(u.center(), c, "centre of the annulus");
}
// the square of a frame
template<int N> void square_transf()
{
  const auto x = pt<N>("x");
  const auto t = [] {
    if constexpr (N == 2) return any_transf<2>("t");
    else {
      const auto o = pt<3>("o");
      Vector<real, 12> c(0.0);
      for (int d = 0; d < 3; ++d) {
        c(4 * d) = 1.0 + d;
        c(9 + d) = o(d);
      }
      c(1) = 0.5;
      c(3) = -0.5;
      c(7) = 0.25;
      return AffineTransf<3>(c);
    }
  }();
  const fn::Square<N> f, g(t);
  const auto y = t.transform_point(x);
  qv_check_eq(g(y), f(x), "transformed square: value at the image of a point");
  for (int i = 0; i < N; ++i) {
    qv_assume(x(i) > 0.015625 || x(i) < -0.015625);
    for (int j = 0; j < i; ++j) qv_assume(std::abs(x(i)) - std::abs(x(j)) > 0.015625 || std::abs(x(i)) - std::abs(x(j)) < -0.015625);
  }
  // chain rule: the linear part transposed times the gradient there
  const auto d = t.transform_point(Point<N>(0.0));
  const Vector<real, N> gy = g.grad(y), fx = f.grad(x);
  for (int j = 0; j < N; ++j) {
    Point<N> e(0.0);
    e(j) = 1.0;
    const Point<N> col = t.transform_point(e) - d;
    qv_check_eq(dot(col, gy), fx(j), "transformed square: gradient");
  }
}
// --------------------------------------------------------------------- TPMS
constexpr real pi2 = 2.0 * numbers::pi;
template<template<int> class F, int N> struct Tpms
{
  Point<N> x, w;
  real z{ 0.0 };
  std::shared_ptr<F<N>> f;
  real a[3], b[3];
  Tpms() : x(pt<N>("x")), w(pt<N>("w"))
  {
    if constexpr (N == 2) {
      z = qv_real("z");
      f = std::make_shared<F<N>>(w, z);
    } else f = std::make_shared<F<N>>(w);
    for (int i = 0; i < N; ++i) a[i] = pi2 * (w(i) * x(i));
    if (N == 2) a[2] = pi2 * z;
    for (int i = 0; i < 3; ++i) b[i] = 2.0 * a[i];
  }
  void check(real v) const
  {
    qv_check_eq((*f)(x), v, "the value is the documented formula");
    derivatives<N>(*f, x);
    interval<N>(*f, x);
  }
};
using std::sin, std::cos;
template<int N> void schoen()
{
  const Tpms<tp::Schoen, N> t;
  const auto &a = t.a;
  t.check(sin(a[0]) * cos(a[1]) + sin(a[1]) * cos(a[2]) + sin(a[2]) * cos(a[0]));
}
template<int N> void schoen_iwp()
{
  const Tpms<tp::SchoenIWP, N> t;
  const auto &a = t.a;
  const auto &b = t.b;
  t.check(2.0 * (cos(a[0]) * cos(a[1]) + cos(a[1]) * cos(a[2]) + cos(a[2]) * cos(a[0])) - cos(b[0]) - cos(b[1]) - cos(b[2]));
}
template<int N> void schoen_frd()
{
  const Tpms<tp::SchoenFRD, N> t;
  const auto &a = t.a;
  const auto &b = t.b;
  t.check(4.0 * cos(a[0]) * cos(a[1]) * cos(a[2]) - cos(b[0]) * cos(b[1]) - cos(b[1]) * cos(b[2]) - cos(b[2]) * cos(b[0]));
}
template<int N> void fischer_koch()
{
  const Tpms<tp::FischerKochS, N> t;
  const auto &a = t.a;
  const auto &b = t.b;
  t.check(cos(b[0]) * sin(a[1]) * cos(a[2]) + cos(a[0]) * cos(b[1]) * sin(a[2]) + sin(a[0]) * cos(a[1]) * cos(b[2]));
}
template<int N> void diamond()
{
  const Tpms<tp::SchwarzDiamond, N> t;
  const auto &a = t.a;
  t.check(cos(a[0]) * cos(a[1]) * cos(a[2]) - sin(a[0]) * sin(a[1]) * sin(a[2]));
}
template<int N> void primitive()
{
  const Tpms<tp::SchwarzPrimitive, N> t;
  const auto &a = t.a;
  t.check(cos(a[0]) + cos(a[1]) + cos(a[2]));
}
}// namespace
HARNESS(sphere2) { sphere<2>(); }
HARNESS(sphere3) { sphere<3>(); }
HARNESS(ellipsoid2) { ellipsoid<2>(); }
HARNESS(ellipsoid3) { ellipsoid<3>(); }
HARNESS(ellipsoid_turned2)
{
  const auto x = pt<2>("x"), o = pt<2>("o"), d = pt<2>("d");
  qv_assume(norm(d) > 0.0625);
  const Point<2> s(above_zero("s0"), above_zero("s1"));
  const RefSystem<2> sys(o, d);
  const fn::Ellipsoid<2> f(s, sys);
  const real n2 = dot(d, d);
  const Point<2> y = x - o;
  const real p = dot(y, d), q = y(1) * d(0) - y(0) * d(1);
  qv_check_eq((f(x) + 1.0) * n2, p * p / (s(0) * s(0)) + q * q / (s(1) * s(1)), "ellipsoid with a given first axis");
  derivatives<2>(f, x);
}
HARNESS(ellipsoid_turned3)
{
  const auto x = pt<3>("x");
  Point<3> s;
  for (int i = 0; i < 3; ++i) s(i) = above_zero(qv::idx("s", i));
  const RefSystem<3> sys(Point<3>(0.25, -0.5, 1.0), Point<3>(1.0, 2.0, 2.0), Point<3>(0.0, 1.0, 0.5));
  const fn::Ellipsoid<3> f(s, sys);
  derivatives<3>(f, x);
  interval<3>(f, x);
}
HARNESS(plane2) { plane<2>(); }
HARNESS(plane3) { plane<3>(); }
HARNESS(constant2) { constant<2>(); }
HARNESS(constant3) { constant<3>(); }
HARNESS(cylinder)
{
  const auto x = pt<3>("x"), o = pt<3>("o"), a = direction("a");
  const real r = above_zero("r");
  const fn::Cylinder f(r, o, a), f0(r, o), f1(r);
  const Point<3> d = x - o;
  const real p = dot(d, a);
  qv_check_eq((f(x) + r * r) * dot(a, a), dot(d, d) * dot(a, a) - p * p, "cylinder: squared distance to the axis minus squared radius");
  qv_check_eq(f0(x), d(0) * d(0) + d(1) * d(1) - r * r, "cylinder: default axis is z");
  qv_check_eq(f1(x), x(0) * x(0) + x(1) * x(1) - r * r, "cylinder: default origin");
  derivatives<3>(f, x);
  interval<3>(f, x);
}
HARNESS(annulus)
{
  const auto x = pt<2>("x"), c = pt<2>("c");
  const real r = above_zero("r"), h = above_zero("h"), R = r + h;
  const fn::Annulus f(r, R, c), f0(r, R);
  const Point<2> d = x - c;
  qv_check_eq(f(x), (dot(d, d) - r * r) * (dot(d, d) - R * R), "annulus: negative between the radii");
  qv_check_eq(f0(x), (dot(x, x) - r * r) * (dot(x, x) - R * R), "annulus: default centre");
  derivatives<2>(f, x);
  interval<2>(f, x);
}
HARNESS(torus)
{
  const auto x = pt<3>("x"), c = pt<3>("c"), a = direction("a");
  const real r = above_zero("r"), h = above_zero("h"), R = r + h;
  const fn::Torus f(R, r, c, a), f0(R, r, c), f1(R, r);
  const Point<3> d = x - c;
  const real n2 = dot(a, a), p = dot(d, a), q = dot(d, d) + R * R - r * r;
  // (|d|^2 + R^2 - r^2)^2 = 4 R^2 |d - (d.a) a|^2 on the torus
  qv_check_eq(f(x) * n2, q * q * n2 - 4.0 * R * R * (dot(d, d) * n2 - p * p), "torus around its axis");
  qv_check_eq(f0(x), q * q - 4.0 * R * R * (d(0) * d(0) + d(1) * d(1)), "torus: default axis is z");
  const real q1 = dot(x, x) + R * R - r * r;
  qv_check_eq(f1(x), q1 * q1 - 4.0 * R * R * (x(0) * x(0) + x(1) * x(1)), "torus: default centre");
  derivatives<3>(f, x);
  interval<3>(f, x);
}
HARNESS(dim_linear2) { dim_linear<2>(); }
HARNESS(dim_linear3) { dim_linear<3>(); }
HARNESS(dim_linear_transf2) { dim_linear_transf<2>(); }
HARNESS(dim_linear_transf3) { dim_linear_transf<3>(); }
HARNESS(transformed2) { transformed<2>(); }
HARNESS(transformed3) { transformed<3>(); }
HARNESS(combined2) { combined<2>(); }
HARNESS(combined3) { combined<3>(); }
HARNESS(square2) { square<2>(); }
HARNESS(square3) { square<3>(); }
HARNESS(schoen2) { schoen<2>(); }
HARNESS(schoen3) { schoen<3>(); }
HARNESS(schoen_iwp2) { schoen_iwp<2>(); }
HARNESS(schoen_iwp3) { schoen_iwp<3>(); }
HARNESS(schoen_frd2) { schoen_frd<2>(); }
HARNESS(schoen_frd3) { schoen_frd<3>(); }
HARNESS(fischer_koch2) { fischer_koch<2>(); }
HARNESS(fischer_koch3) { fischer_koch<3>(); }
HARNESS(diamond2) { diamond<2>(); }
HARNESS(diamond3) { diamond<3>(); }
HARNESS(primitive2) { primitive<2>(); }
HARNESS(primitive3) { primitive<3>(); }
HARNESS(asked2) { asked<2>(); }
HARNESS(asked3) { asked<3>(); }
HARNESS(asked_with_axis) { asked_with_axis(); }
HARNESS(square_transf2) { square_transf<2>(); }
HARNESS(square_transf3) { square_transf<3>(); }
