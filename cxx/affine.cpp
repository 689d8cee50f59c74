// Contracts of AffineTransf: x -> A x + b, its algebra, its constructors, and
// the way gradients and Hessians are pulled back.
#include <cassert>
#include "qvc.h"
#include "repo.h"
#include QV_SRC(tolerance.cpp)
#include QV_SRC(affine_transf.cpp)
using namespace qugar;
using namespace qugar::impl;
namespace {
template<int N> AffineTransf<N> any(const char *b)
{
  return AffineTransf<N>(qv::vec<Vector<real, N *(N + 1)>, N *(N + 1)>(b));
}
template<int N> Point<N> pt(const char *b) { return qv::vec<Point<N>, N>(b); }
template<int N> void same(const Point<N> &a, const Point<N> &b, const char *tag)
{
  for (int i = 0; i < N; ++i) qv_check_eq(a(i), b(i), tag);
}
// A v
template<int N> Point<N> lin(const AffineTransf<N> &t, const Point<N> &v)
{
  return t.transform_point(v) - t.transform_point(Point<N>(0.0));
}
template<int N> Point<N> unit(int k) { Point<N> e(0.0); e(k) = 1.0; return e; }
real det(const AffineTransf<2> &t)
{
  const auto a = lin<2>(t, unit<2>(0)), b = lin<2>(t, unit<2>(1));
  return a(0) * b(1) - a(1) * b(0);
}
Point<3> cross(const Point<3> &a, const Point<3> &b)
{
  return Point<3>(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
}
real det(const AffineTransf<3> &t)
{
  return dot(lin<3>(t, unit<3>(0)), cross(lin<3>(t, unit<3>(1)), lin<3>(t, unit<3>(2))));
}
template<int N> void inverse()
{
  const auto t = any<N>("c");
  const auto p = pt<N>("p");
  const real d = det(t);
  qv_assume(d > 0.015625 || d < -0.015625);
  const auto i = t.inverse();
  same<N>(i.transform_point(t.transform_point(p)), p, "inverse after transform is the identity");
  same<N>(t.transform_point(i.transform_point(p)), p, "transform after inverse is the identity");
}
template<int N> void compose()
{
  const auto s = any<N>("s"), t = any<N>("t");
  const auto p = pt<N>("p");
  same<N>((s * t).transform_point(p), s.transform_point(t.transform_point(p)), "product composes, right factor first");
}
template<int N> void affine()
{
  // c holds A row-wise, then b
  const auto c = qv::vec<Vector<real, N *(N + 1)>, N *(N + 1)>("c");
  const AffineTransf<N> t(c);
  const auto p = pt<N>("p");
  const auto q = t.transform_point(p);
  for (int i = 0; i < N; ++i) {
    real v = c(N * N + i);
    for (int j = 0; j < N; ++j) v += c(i * N + j) * p(j);
    qv_check_eq(q(i), v, "transform_point is A x + b");
  }
}
template<int N> void gradient_pullback()
{
  const auto t = any<N>("c");
  const auto g = pt<N>("g"), v = pt<N>("v");
  // g . (A v) == transform_vector(g) . v for every v
  qv_check_eq(dot(t.transform_vector(g), v), dot(g, lin<N>(t, v)), "gradient is pulled back by the transposed matrix");
}
template<int N> real quad(const typename AffineTransf<N>::template Tensor<real> &h, const Point<N> &v, const Point<N> &w)
{
  real s = 0.0;
  int k = 0;
  for (int i = 0; i < N; ++i)
    for (int j = i; j < N; ++j, ++k) s += i == j ? h(k) * v(i) * w(i) : h(k) * (v(i) * w(j) + v(j) * w(i));
  return s;
}
template<int N> void hessian_pullback()
{
  const auto t = any<N>("c");
  const auto h = qv::vec<typename AffineTransf<N>::template Tensor<real>, N *(N + 1) / 2>("h");
  const auto v = pt<N>("v"), w = pt<N>("w");
  qv_check_eq(quad<N>(t.transform_tensor(h), v, w), quad<N>(h, lin<N>(t, v), lin<N>(t, w)), "Hessian is pulled back as a bilinear form");
}
template<int N> void simple_ctors()
{
  const auto o = pt<N>("o"), p = pt<N>("p");
  const real s = qv_real("s");
  same<N>(AffineTransf<N>().transform_point(p), p, "default transform is the identity");
  same<N>(AffineTransf<N>(o).transform_point(p), p + o, "origin constructor translates");
  same<N>(AffineTransf<N>(o, s).transform_point(p), p * s + o, "scale constructor scales, then translates");
}
}// namespace
HARNESS(inverse2) { inverse<2>(); }
HARNESS(inverse3) { inverse<3>(); }
HARNESS(compose2) { compose<2>(); }
HARNESS(compose3) { compose<3>(); }
HARNESS(affine2) { affine<2>(); }
HARNESS(affine3) { affine<3>(); }
HARNESS(gradient2) { gradient_pullback<2>(); }
HARNESS(gradient3) { gradient_pullback<3>(); }
HARNESS(hessian2) { hessian_pullback<2>(); }
HARNESS(hessian3) { hessian_pullback<3>(); }
HARNESS(ctors2) { simple_ctors<2>(); }
HARNESS(ctors3) { simple_ctors<3>(); }
HARNESS(axes2)
{
  const auto o = pt<2>("o"), x = pt<2>("x");
  const real sx = qv_real("sx"), sy = qv_real("sy");
  qv_assume(sx > 0.0);
  qv_assume(sy > 0.0);
  const real n = norm(x);
  qv_assume(n > 0.0);
  const AffineTransf<2> t(o, x, sx, sy);
  same<2>(t.transform_point(Point<2>(0.0)), o, "origin is the image of zero");
  const auto a = lin<2>(t, unit<2>(0)), b = lin<2>(t, unit<2>(1));
  same<2>(a * n, x * sx, "first axis: the given direction, scaled by scale_x");
  same<2>(b * n, Point<2>(-x(1), x(0)) * sy, "second axis: first axis turned 90 degrees counter-clockwise, scaled by scale_y");
  const AffineTransf<2> u(o, x);
  same<2>(lin<2>(u, unit<2>(0)) * n, x, "unscaled constructor: first axis is normalised");
  same<2>(lin<2>(u, unit<2>(1)) * n, Point<2>(-x(1), x(0)), "unscaled constructor: second axis");
  same<2>(u.transform_point(Point<2>(0.0)), o, "unscaled constructor: origin");
}
HARNESS(axes3)
{
  const auto o = pt<3>("o"), x = pt<3>("x"), y = pt<3>("y");
  const real s[3] = { qv_real("sx"), qv_real("sy"), qv_real("sz") };
  for (real v : s) qv_assume(v > 0.0);
  const real n = norm(x);
  qv_assume(n > 0.0);
  qv_assume(norm(cross(x / n, y)) > 0.0);
  const AffineTransf<3> t(o, x, y, s[0], s[1], s[2]);
  const AffineTransf<3> u(o, x, y);
  same<3>(t.transform_point(Point<3>(0.0)), o, "origin is the image of zero");
  same<3>(u.transform_point(Point<3>(0.0)), o, "origin is the image of zero (unscaled)");
  Point<3> e[3];
  for (int k = 0; k < 3; ++k) {
    e[k] = lin<3>(u, unit<3>(k));
    same<3>(lin<3>(t, unit<3>(k)), e[k] * s[k], "axis k is scaled by its own factor");
  }
  same<3>(e[0] * n, x, "first axis is the given direction");
  for (int i = 0; i < 3; ++i)
    for (int j = i; j < 3; ++j) qv_check_eq(dot(e[i], e[j]), i == j ? 1.0 : 0.0, "the axes are orthonormal");
  same<3>(cross(e[0], e[1]), e[2], "the axes are right handed");
  qv_check_eq(dot(e[2], y), 0.0, "the second given direction lies in the xy-plane of the system");
}
HARNESS(reference_system)
{
  // |z| = 1 (the code normalises; normalisation is covered by reference_system_scale)
  const auto z = pt<3>("z");
  const real n = norm(z);
  qv_assume(n > 0.0625);
  const auto [x, y] = create_reference_system_around_axis(z);
  qv_check_eq(dot(x, z), 0.0, "x is orthogonal to the axis");
  qv_check_eq(dot(y, z), 0.0, "y is orthogonal to the axis");
  qv_check_eq(dot(x, y), 0.0, "x is orthogonal to y");
  qv_check_eq(dot(x, x), 1.0, "x is a unit vector");
  qv_check_eq(dot(y, y), 1.0, "y is a unit vector");
  same<3>(cross(x, y) * n, z, "x, y and the axis are right handed");
}
