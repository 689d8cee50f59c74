// Contracts of RefSystem: documented, orthonormal, right-handed bases.
#include <cassert>
#include <array>
#include "qvc.h"
// LINK: *
#include <qugar/ref_system.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
template<int N> Point<N> pt(const char *b) { return qv::vec<Point<N>, N>(b); }
template<int N> void orthonormal(const RefSystem<N> &s)
{
  const auto &b = s.get_basis();
  for (std::size_t i = 0; i < N; ++i)
    for (std::size_t j = i; j < N; ++j) qv_check_eq(dot(b[i], b[j]), i == j ? 1.0 : 0.0, "the basis is orthonormal");
}
void right_handed(const RefSystem<3> &s)
{
  const auto &b = s.get_basis();
  const Point<3> &x = b[0], &y = b[1], &z = b[2];
  qv_check_eq(x(1) * y(2) - x(2) * y(1), z(0), "right-handed");
  qv_check_eq(x(2) * y(0) - x(0) * y(2), z(1), "right-handed");
  qv_check_eq(x(0) * y(1) - x(1) * y(0), z(2), "right-handed");
}
template<int N> void defaults()
{
  const auto o = pt<N>("o");
  const RefSystem<N> s(o), t;
  for (std::size_t i = 0; i < N; ++i) {
    qv_check_eq(s.get_origin()(static_cast<int>(i)), o(static_cast<int>(i)), "origin");
    qv_check_eq(t.get_origin()(static_cast<int>(i)), 0.0, "default origin");
    for (std::size_t j = 0; j < N; ++j) {
      qv_check_eq(s.get_basis()[i](static_cast<int>(j)), i == j ? 1.0 : 0.0, "Cartesian axes");
      qv_check_eq(t.get_basis()[i](static_cast<int>(j)), i == j ? 1.0 : 0.0, "Cartesian axes");
    }
  }
  qv_check(s.is_Cartesian_oriented() && t.is_Cartesian_oriented(), "Cartesian systems are recognised");
}
}// namespace
HARNESS(defaults1) { defaults<1>(); }
HARNESS(defaults2) { defaults<2>(); }
HARNESS(defaults3) { defaults<3>(); }
HARNESS(axis1)
{
  const auto a = pt<1>("a");
  qv_assume(a(0) > 0.0625 || a(0) < -0.0625);
  const RefSystem<1> s(Point<1>(0.0), a);
  orthonormal<1>(s);
  qv_check(s.get_basis()[0](0) * a(0) > 0.0, "along the axis");
}
HARNESS(axis2)
{
  const auto o = pt<2>("o"), a = pt<2>("a");
  qv_assume(norm(a) > 0.0625);
  const RefSystem<2> s(o, a);
  orthonormal<2>(s);
  const auto &b = s.get_basis();
  const real n = norm(a);
  for (int i = 0; i < 2; ++i) {
    qv_check_eq(b[0](i) * n, a(i), "the first axis is the given one");
    qv_check_eq(s.get_origin()(i), o(i), "origin");
  }
  qv_check_eq(b[1](0), -b[0](1), "the second axis is the first one turned left");
  qv_check_eq(b[1](1), b[0](0), "the second axis is the first one turned left");
  if (s.is_Cartesian_oriented()) qv_check(b[0](0) > 0.5 && b[1](1) > 0.5, "only Cartesian systems are called so");
}
HARNESS(axis3)
{
  const auto o = pt<3>("o"), a = pt<3>("a");
  qv_assume(norm(a) > 0.0625);
  // well away from x, where the first guess is used
  qv_assume(a(1) * a(1) + a(2) * a(2) > 0.0625 * dot(a, a));
  const RefSystem<3> s(o, a);
  const real n = norm(a);
  for (int i = 0; i < 3; ++i) {
    qv_check_eq(s.get_basis()[2](i) * n, a(i), "the third axis is the given one");
    qv_check_eq(s.get_origin()(i), o(i), "origin");
  }
  orthonormal<3>(s);
  right_handed(s);
}
HARNESS(axis3_x)
{
  // close to x
  const real l = qv_real("l"), e = qv_real("e");
  qv_assume(l > 0.0625 || l < -0.0625);
  qv_assume(e >= -0.0625 && e <= 0.0625);
  const int k = qv::integer("k", 0, 1);
  const Point<3> a(l, k == 0 ? e * l : 0.0, k == 0 ? 0.0 : e * l);
  const RefSystem<3> s(Point<3>(0.0), a);
  orthonormal<3>(s);
  right_handed(s);
  const real n = norm(a);
  for (int i = 0; i < 3; ++i) qv_check_eq(s.get_basis()[2](i) * n, a(i), "the third axis is the given one");
}
HARNESS(axes3)
{
  const auto o = pt<3>("o"), a = pt<3>("a"), b = pt<3>("b");
  qv_assume(norm(a) > 0.0625);
  const Point<3> c(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
  qv_assume(dot(c, c) > 0.0625);
  const RefSystem<3> s(o, a, b);
  const real n = norm(a);
  for (int i = 0; i < 3; ++i) {
    qv_check_eq(s.get_basis()[0](i) * n, a(i), "the first axis is the given one");
    qv_check_eq(s.get_origin()(i), o(i), "origin");
  }
  qv_check_eq(dot(s.get_basis()[2], b), 0.0, "the second vector lies in the xy plane");
  orthonormal<3>(s);
  right_handed(s);
  qv_check(dot(s.get_basis()[1], b) > 0.0, "the y axis is on the side of the second vector");
}
