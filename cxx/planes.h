// Half-spaces and strips between planes, and what reparameterizations of them must be.
#ifndef QV_PLANES_H
#define QV_PLANES_H
#include "qvc.h"
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/point.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <array>
#include <vector>
#include <algoim/bernstein.hpp>
#include <algoim/quadrature_multipoly.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
template<typename T> auto &el(T &v, int i) { return v[static_cast<std::size_t>(i)]; }
// s * (n.x - c), or s * (n.x - c) * (n.x - e)
template<int D> struct Plane : ImplicitFunc<D>
{
  using I = algoim::Interval<D>;
  Vector<real, D> n;
  real c{ 0.0 };
  real e{ 0.0 };
  real s{ 1.0 };
  bool two{ false };
  static inline Plane *current{ nullptr };
  template<typename T> T along(const Vector<T, D> &x) const
  {
    T v = n(0) * x(0);
    for (int d = 1; d < D; ++d) v += n(d) * x(d);
    return v;
  }
  template<typename T> T value(const Vector<T, D> &x) const
  {
    const T v = along<T>(x);
    return two ? s * ((v - c) * (v - e)) : s * (v - c);
  }
  template<typename T> Vector<T, D> slope(const Vector<T, D> &x) const
  {
    Vector<T, D> g;
    const T v = along<T>(x);
    for (int d = 0; d < D; ++d) g(d) = two ? s * n(d) * (2.0 * v - (c + e)) : T(s * n(d));
    return g;
  }
  real size() const { return s < 0.0 ? -s : s; }
  real operator()(const Point<D> &x) const override { return value<real>(x); }
  I operator()(const Point<D, I> &x) const override { return value<I>(x); }
  Vector<real, D> grad(const Point<D> &x) const override { return slope<real>(x); }
  Vector<I, D> grad(const Point<D, I> &x) const override { return slope<I>(x); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
  // all roots along a line
  static void roots(const algoim::uvector<real, D> &x, int dir, real a, real b, std::vector<real> &r)
  {
    const auto &p = *current;
    if (p.n(dir) == 0.0) return;
    real v = 0.0;
    for (int d = 0; d < D; ++d)
      if (d != dir) v += p.n(d) * x(d);
    const real c = (p.c - v) / p.n(dir);
    if (a <= c && c <= b) r.push_back(c);
    if (p.two) {
      const real e = (p.e - v) / p.n(dir);
      if (a <= e && e <= b) r.push_back(e);
    }
  }
  Plane() { algoim::RootHook<D>::find = roots; current = this; }
};
// what floating point may be off by
real slack() { return qv_symbolic() ? 0.0 : 1.0e-9; }
template<int D> real volume(const BoundBox<D> &b)
{
  real v = 1.0;
  for (int d = 0; d < D; ++d) v *= b.max(d) - b.min(d);
  return v;
}
// fraction of a box where n.x < c
template<int D> real below(const Vector<real, D> &n, real c, const BoundBox<D> &box)
{
  std::array<real, D> a{};
  int k = 0;
  real div = 1.0;
  for (int d = 0; d < D; ++d) {
    c -= n(d) * (n(d) < 0.0 ? box.max(d) : box.min(d));
    const real l = box.max(d) - box.min(d);
    if (n(d) == 0.0 || l == 0.0) continue;
    el(a, k) = l * (n(d) < 0.0 ? -n(d) : n(d));
    div *= el(a, k) * static_cast<real>(k + 1);
    ++k;
  }
  if (k == 0) return c > 0.0 ? 1.0 : 0.0;
  real v = 0.0;
  for (int m = 0; m < (1 << k); ++m) {
    real t = c, sign = 1.0;
    for (int i = 0; i < k; ++i)
      if ((m >> i) % 2 == 1) {
        t -= el(a, i);
        sign = -sign;
      }
    if (t > 0.0) v += sign * (k == 1 ? t : k == 2 ? t * t : t * t * t);
  }
  return v / div;
}
template<int D> real inside(const Plane<D> &f, const BoundBox<D> &box)
{
  real v = below<D>(f.n, f.c, box);
  if (f.two) v = below<D>(f.n, f.e, box) - v;
  return f.s < 0.0 ? 1.0 - v : v;
}
real node(int i, int n)
{
  return ReparamMesh<2, 2>::use_Chebyshev(n) ? algoim::bernstein::modifiedChebyshevNode(i, n) : static_cast<real>(i) / static_cast<real>(n - 1);
}
// A multilinear cell: points and derivatives
template<int P, int D> struct Cell
{
  std::array<Point<D>, 1 << P> v;
  template<typename W> Point<D> eval(const Vector<real, P> &t, W &&weight) const
  {
    Point<D> x(0.0);
    for (int m = 0; m < (1 << P); ++m) {
      real w = 1.0;
      for (int d = 0; d < P; ++d) w *= weight(d, (m >> d) % 2, t(d));
      x += el(v, m) * w;
    }
    return x;
  }
  Point<D> at(const Vector<real, P> &t) const
  {
    return eval(t, [](int, int k, real u) { return k == 1 ? u : 1.0 - u; });
  }
  Point<D> deriv(const Vector<real, P> &t, int dir) const
  {
    return eval(t, [dir](int d, int k, real u) { return d == dir ? (k == 1 ? 1.0 : -1.0) : k == 1 ? u : 1.0 - u; });
  }
};
template<int D> Vector<real, D> normal(const Cell<D - 1, D> &c, const Vector<real, D - 1> &t)
{
  Vector<real, D> n;
  const auto a = c.deriv(t, 0);
  if constexpr (D == 2) {
    n(0) = a(1);
    n(1) = -a(0);
  } else {
    const auto b = c.deriv(t, 1);
    for (int d = 0; d < 3; ++d) n(d) = a((d + 1) % 3) * b((d + 2) % 3) - a((d + 2) % 3) * b((d + 1) % 3);
  }
  return n;
}
// integral over the cell by Simpson's rule, exact up to cubics
template<int P, typename F> auto integrate(F &&f)
{
  Vector<real, P> t(0.5);
  auto v = f(t) * 0.0;
  int n = 1;
  for (int d = 0; d < P; ++d) n *= 3;
  for (int k = 0; k < n; ++k) {
    real w = 1.0;
    for (int d = 0, r = k; d < P; ++d, r /= 3) {
      t(d) = static_cast<real>(r % 3) * 0.5;
      w *= r % 3 == 1 ? 4.0 : 1.0;
    }
    v += f(t) * w;
  }
  for (int d = 0; d < P; ++d) v /= 6.0;
  return v;
}
// the cells of a mesh, multilinear as they are
template<int P, int D> std::vector<Cell<P, D>> cells_of(const ReparamMesh<P, D> &m, const BoundBox<D> &box, const char *what)
{
  const int n = m.get_order();
  const auto &p = m.get_points();
  const auto &c = m.get_connectivity();
  int per = 1;
  for (int d = 0; d < P; ++d) per *= n;
  for (const auto &x : p)
    for (int d = 0; d < D; ++d) qv_check(x(d) >= box.min(d) - slack() && x(d) <= box.max(d) + slack(), "reparameterizations are inside the cell");
  std::vector<Cell<P, D>> cells;
  for (int k = 0; k < static_cast<int>(m.get_num_cells()); ++k) {
    Cell<P, D> cell;
    for (int v = 0; v < (1 << P); ++v) {
      int i = 0;
      for (int d = P - 1; d >= 0; --d) i = i * n + ((v >> d) % 2 == 1 ? n - 1 : 0);
      el(cell.v, v) = p[el(c, k * per + i)];
    }
    for (int i = 0; n > 2 && i < per; ++i) {
      Vector<real, P> t;
      for (int d = 0, r = i; d < P; ++d, r /= n) t(d) = node(r % n, n);
      const auto x = cell.at(t);
      for (int d = 0; d < D; ++d) qv_check_eq(p[el(c, k * per + i)](d), x(d), what);
    }
    cells.push_back(cell);
  }
  return cells;
}
const char *const spread = "the points of reparameterized cells are spread evenly";
template<int D> real jacobian_integral(const Cell<D, D> &c)
{
  return integrate<D>([&c](const Vector<real, D> &t) {
    std::array<Point<D>, D> j;
    for (int d = 0; d < D; ++d) el(j, d) = c.deriv(t, d);
    if constexpr (D == 2) return j[0](0) * j[1](1) - j[0](1) * j[1](0);
    else {
      real det = 0.0;
      for (int d = 0; d < 3; ++d) det += j[0](d) * (j[1]((d + 1) % 3) * j[2]((d + 2) % 3) - j[1]((d + 2) % 3) * j[2]((d + 1) % 3));
      return det;
    }
  });
}
template<int D> void check_volume(const ReparamMesh<D, D> &m, const Plane<D> &f, const BoundBox<D> &box, real want)
{
  for (const auto &x : m.get_points()) qv_check(f(x) / f.size() <= slack(), "reparameterizations are inside the domain");
  real vol = 0.0;
  for (const auto &c : cells_of<D, D>(m, box, spread)) {
    const real v = jacobian_integral<D>(c);
    qv_check(v >= -slack(), "cells of reparameterizations are oriented positively");
    vol += v;
  }
  qv_check_eq(vol, want, "reparameterizations cover the part of the cell inside the domain");
}
template<int D> void check_volume(const ReparamMesh<D, D> &m, const Plane<D> &f, const BoundBox<D> &box)
{
  check_volume<D>(m, f, box, volume<D>(box) * inside<D>(f, box));
}
// integral of the normal over the boundary of the part of a box inside
template<int D> Vector<real, D> normals(const Plane<D> &f, const BoundBox<D> &box)
{
  // the integrals of the outer normal over the boundary of the part inside add up to zero
  Vector<real, D> sum(0.0);
  for (int d = 0; d < D; ++d) {
    for (int side = 0; side < 2; ++side) {
      auto lo = box.min_corner(), hi = box.max_corner();
      (side == 0 ? hi : lo)(d) = side == 0 ? lo(d) : hi(d);
      real area = 1.0;
      for (int e = 0; e < D; ++e)
        if (e != d) area *= hi(e) - lo(e);
      area *= inside<D>(f, BoundBox<D>(lo, hi));
      sum(d) += side == 0 ? area : -area;
    }
  }
  return sum;
}
template<int D> void check_boundary(const ReparamMesh<D - 1, D> &m, const Plane<D> &f, const BoundBox<D> &box, const Vector<real, D> &want)
{
  for (const auto &x : m.get_points()) qv_check_eq(f(x) / f.size(), 0.0, "reparameterizations of the boundary are on it");
  Vector<real, D> sum(0.0);
  for (const auto &c : cells_of<D - 1, D>(m, box, spread)) {
    const auto n = integrate<D - 1>([&c](const Vector<real, D - 1> &t) { return normal<D>(c, t); });
    const auto g = f.grad(c.at(Vector<real, D - 1>(0.5)));
    real out = 0.0;
    for (int d = 0; d < D; ++d) out += n(d) * g(d);
    qv_check(out / f.size() >= -slack(), "cells of reparameterizations of the boundary have outer normals");
    sum += n;
  }
  for (int d = 0; d < D; ++d) qv_check_eq(sum(d), want(d), "reparameterizations of the boundary cover its part in the cell");
}
template<int D> void check_boundary(const ReparamMesh<D - 1, D> &m, const Plane<D> &f, const BoundBox<D> &box)
{
  check_boundary<D>(m, f, box, normals<D>(f, box));
}
template<int D> void check_facet(const ReparamMesh<D - 1, D> &m, const Plane<D> &f, const BoundBox<D> &box, int facet)
{
  const int dir = facet / 2;
  auto lo = box.min_corner(), hi = box.max_corner();
  (facet % 2 == 0 ? hi : lo)(dir) = facet % 2 == 0 ? lo(dir) : hi(dir);
  for (const auto &x : m.get_points()) {
    qv_check(f(x) / f.size() <= slack(), "reparameterizations are inside the domain");
    qv_check_eq(x(dir), lo(dir), "reparameterizations of facets are on the facet");
  }
  real area = 0.0;
  for (const auto &c : cells_of<D - 1, D>(m, box, spread)) {
    const auto n = integrate<D - 1>([&c](const Vector<real, D - 1> &t) { return normal<D>(c, t); });
    const real out = facet % 2 == 0 ? -n(dir) : n(dir);
    qv_check(out >= -slack(), "cells of reparameterizations of facets have outer normals");
    area += out;
  }
  real want = inside<D>(f, BoundBox<D>(lo, hi));
  for (int e = 0; e < D; ++e)
    if (e != dir) want *= hi(e) - lo(e);
  qv_check_eq(area, want, "reparameterizations of facets cover their part inside the domain");
}
// a plane as a polynomial over the unit box, mapped to a box
template<int D> BezierTP<D, 1> bezier(const Plane<D> &f, const BoundBox<D> &box)
{
  std::vector<real> c;
  for (int i = 0; i < (1 << D); ++i) {
    Point<D> x;
    for (int d = 0; d < D; ++d) x(d) = (i >> d) % 2 == 1 ? box.max(d) : box.min(d);
    c.push_back(f(x));
  }
  return BezierTP<D, 1>(TensorSizeTP<D>(2), c);
}
// Quadratures of the part of a box inside: one node, at the innermost corner.
template<int D> void set_nodes(const Vector<real, D> &n, real part, real s)
{
  using H = algoim::QuadHook<D>;
  H::nodes.clear();
  H::weights.clear();
  if (part == 0.0) return;
  Vector<real, D> x;
  for (int d = 0; d < D; ++d) x(d) = n(d) * s < 0.0 ? 1.0 : 0.0;
  H::nodes.push_back(x);
  H::weights.push_back(part);
}
template<int D> void region(int dim, int side, const algoim::uvector<real, D> &lo, const algoim::uvector<real, D> &hi)
{
  const auto &f = *Plane<D>::current;
  auto a = lo, b = hi;
  if (dim >= 0) (side == 0 ? b : a)(dim) = side == 0 ? lo(dim) : hi(dim);
  set_nodes<D>(f.n, inside<D>(f, BoundBox<D>(a, b)), f.s);
}
// where a linear polynomial over the unit box is negative
template<int D> void polynomial(const real *c, const algoim::uvector<int, D> &order)
{
  Vector<real, D> n;
  int st = 1;
  for (int d = D - 1; d >= 0; --d) {
    qv_check(order(d) == 2, "polynomials keep their order");
    n(d) = c[st] - c[0];
    st *= 2;
  }
  set_nodes<D>(n, below<D>(n, -c[0], BoundBox<D>(0.0, 1.0)), 1.0);
}
}// namespace
#endif
