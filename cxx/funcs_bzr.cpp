// Contracts of the Bezier forms of the primitive functions: the same function
// as the general form (planes: with the normal scaled to unit length).
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace fn = qugar::impl::funcs;
namespace {
template<int N> Point<N> pt(const char *b) { return qv::vec<Point<N>, N>(b); }
real above_zero(const char *n)
{
  const real r = qv_real(n);
  qv_assume(r > 0.0625);
  return r;
}
Point<3> direction(const char *n)
{
  const auto a = pt<3>(n);
  qv_assume(norm(a) > 0.0625);
  return a;
}
template<int N, typename F, typename G> void same(const F &f, const G &g)
{
  const auto x = pt<N>("x");
  qv_check_eq(f(x), g(x), "the Bezier form is the same function");
}
template<int N> void sphere()
{
  const auto c = pt<N>("c");
  const real r = above_zero("r");
  same<N>(fn::SphereBzr<N>(r, c), fn::Sphere<N>(r, c));
  same<N>(fn::SphereBzr<N>(r), fn::Sphere<N>(r));
  const fn::SphereBzr<N> b(r, c);
  qv_check_eq(b.radius(), r, "radius");
  for (int i = 0; i < N; ++i) qv_check_eq(b.center()(i), c(i), "centre");
}
template<int N> void plane()
{
  const auto x = pt<N>("x"), o = pt<N>("o"), n = pt<N>("n");
  qv_assume(norm(n) > 0.0625);
  const fn::PlaneBzr<N> f(o, n), f0;
  const fn::Plane<N> g(o, n), g0;
  qv_check_eq(f(x) * norm(n), g(x), "plane with unit normal");
  qv_check_eq(f0(x), g0(x), "default plane");
  for (int i = 0; i < N; ++i) {
    qv_check_eq(f.origin()(i), o(i), "origin");
    qv_check_eq(f.normal()(i), n(i), "normal");
  }
}
template<int N> void constant()
{
  const real v = qv_real("v");
  same<N>(fn::ConstantBzr<N>(v), fn::Constant<N>(v));
  same<N>(fn::ConstantBzr<N>(), fn::Constant<N>());
  qv_check_eq(fn::ConstantBzr<N>(v).value(), v, "constant");
}
template<int N> void ellipsoid()
{
  Point<N> s;
  for (int i = 0; i < N; ++i) s(i) = above_zero(qv::idx("s", i));
  const auto o = pt<N>("o");
  same<N>(fn::EllipsoidBzr<N>(s), fn::Ellipsoid<N>(s));
  const RefSystem<N> sys(o);
  same<N>(fn::EllipsoidBzr<N>(s, sys), fn::Ellipsoid<N>(s, sys));
}
}// namespace
HARNESS(sphere2) { sphere<2>(); }
HARNESS(sphere3) { sphere<3>(); }
HARNESS(plane2) { plane<2>(); }
HARNESS(plane3) { plane<3>(); }
HARNESS(constant2) { constant<2>(); }
HARNESS(constant3) { constant<3>(); }
HARNESS(ellipsoid2) { ellipsoid<2>(); }
HARNESS(ellipsoid3) { ellipsoid<3>(); }
HARNESS(ellipsoid_turned2)
{
  const auto o = pt<2>("o"), d = pt<2>("d");
  qv_assume(norm(d) > 0.0625);
  const Point<2> s(above_zero("s0"), above_zero("s1"));
  const RefSystem<2> sys(o, d);
  same<2>(fn::EllipsoidBzr<2>(s, sys), fn::Ellipsoid<2>(s, sys));
}
HARNESS(ellipsoid_turned3)
{
  Point<3> s;
  for (int i = 0; i < 3; ++i) s(i) = above_zero(qv::idx("s", i));
  const RefSystem<3> sys(pt<3>("o"), Point<3>(1.0, 2.0, 2.0), Point<3>(0.0, 1.0, 0.5));
  same<3>(fn::EllipsoidBzr<3>(s, sys), fn::Ellipsoid<3>(s, sys));
}
HARNESS(n_cylinder)
{
  static const real ax[8][3] = { { 12, 3, 4 }, { -12, 4, 3 }, { 8, 9, 12 }, { 8, 12, -9 }, { 0, 3, -4 }, { 84, 5, 12 }, { 0, 0, 2 }, { 0, -1, 0 } };
  const int k = qv::integer("axis", 0, 7);
  const real r = above_zero("r");
  const auto o = pt<3>("o");
  const Point<3> a(ax[k][0], ax[k][1], ax[k][2]);
  same<3>(fn::CylinderBzr(r, o, a), fn::Cylinder(r, o, a));
}
HARNESS(cylinder_x)
{
  const real r = above_zero("r"), l = qv_real("l"), e = qv_real("e");
  qv_assume(l > 0.0625 || l < -0.0625);
  qv_assume(e >= -0.0625 && e <= 0.0625);
  const Point<3> a(l, e * l, 0.0);
  const auto o = pt<3>("o");
  same<3>(fn::CylinderBzr(r, o, a), fn::Cylinder(r, o, a));
}
HARNESS(cylinder_default)
{
  const real r = above_zero("r");
  const auto o = pt<3>("o");
  same<3>(fn::CylinderBzr(r, o), fn::Cylinder(r, o));
  same<3>(fn::CylinderBzr(r), fn::Cylinder(r));
}
HARNESS(annulus)
{
  const real r = above_zero("r"), R = r + above_zero("h");
  const auto c = pt<2>("c");
  same<2>(fn::AnnulusBzr(r, R, c), fn::Annulus(r, R, c));
  same<2>(fn::AnnulusBzr(r, R), fn::Annulus(r, R));
}
// axes with rational length; a quadratic form in the axis is given by six of them
HARNESS(n_torus)
{
  static const real ax[8][3] = { { 1, 2, 2 }, { 2, 3, -6 }, { 4, -4, 7 }, { -6, 6, 7 }, { 1, 4, 8 }, { 9, 2, 6 }, { 1, 0, 0 }, { 0, -2, 0 } };
  const int k = qv::integer("axis", 0, 7);
  const real r = above_zero("r"), R = r + above_zero("h");
  const auto c = pt<3>("c");
  const Point<3> a(ax[k][0], ax[k][1], ax[k][2]);
  same<3>(fn::TorusBzr(R, r, c, a), fn::Torus(R, r, c, a));
}
HARNESS(torus_default)
{
  const real r = above_zero("r"), R = r + above_zero("h");
  const auto c = pt<3>("c");
  same<3>(fn::TorusBzr(R, r, c), fn::Torus(R, r, c));
  same<3>(fn::TorusBzr(R, r), fn::Torus(R, r));
}
