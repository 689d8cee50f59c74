// Contracts of reparameterizations of cells cut by planes: any plane.
#include <cassert>
#include "qvc.h"
#include "planes.h"
// LINK: *
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <array>
#include <cmath>
#include <vector>
namespace {
template<int D> const BoundBox<D> the_box()
{
  Point<D> lo, hi;
  for (int d = 0; d < D; ++d) {
    lo(d) = 1.0 + d;
    hi(d) = 3.0 + 2.0 * d;
  }
  return BoundBox<D>(lo, hi);
}
template<int D> void away_from_corners(const Plane<D> &f, real c, const BoundBox<D> &box, int but = -1)
{
  for (int i = 0; i < (1 << D); ++i) {
    real v = -c;
    for (int d = 0; d < D; ++d) v += f.n(d) * ((i >> d) % 2 == 1 ? box.max(d) : box.min(d));
    if (i != but) qv_assume(v > 0.01 || v < -0.01);
  }
}
// any line through the box no corner of which is close to it, but one it passes through if asked for
void any_line(Plane<2> &f, const BoundBox<2> &box, int sx, int sy, int through)
{
  f.n(0) = sx == 0 ? 0.0 : qv_real("n0");
  f.n(1) = sy == 0 ? 0.0 : qv_real("n1");
  if (sx != 0) qv_assume(sx > 0 ? f.n(0) > 0.1 && f.n(0) < 10.0 : f.n(0) < -0.1 && f.n(0) > -10.0);
  if (sy != 0) qv_assume(sy > 0 ? f.n(1) > 0.1 && f.n(1) < 10.0 : f.n(1) < -0.1 && f.n(1) > -10.0);
  f.c = through < 0 ? qv_real("c") : f.n(0) * (through % 2 == 0 ? box.min(0) : box.max(0)) + f.n(1) * (through < 2 ? box.min(1) : box.max(1));
  away_from_corners<2>(f, f.c, box, through);
}
enum Part { volumes, boundaries, facets, bezier_volumes, bezier_boundaries };
template<int D> void reparam_bezier(int part, const Plane<D> &f, const BoundBox<D> &box, int n)
{
  const auto b = bezier<D>(f, box);
  // new meshes rather than given ones
  if (D == 3 && part == volumes) return check_volume<D>(*reparam_Bezier<D, false>(b, box, n), f, box);
  if (D == 3) return check_boundary<D>(*reparam_Bezier<D, true>(b, box, n), f, box);
  if (part == volumes) {
    ImplReparamMesh<D, D> m(n);
    reparam_Bezier<D, false>(b, box, m);
    check_volume<D>(m, f, box);
  } else {
    ImplReparamMesh<D - 1, D> m(n);
    reparam_Bezier<D, true>(b, box, m);
    check_boundary<D>(m, f, box);
  }
}
template<int D> void reparam(int part, const Plane<D> &f, const BoundBox<D> &box, int n)
{
  if (part >= bezier_volumes) return reparam_bezier<D>(part - bezier_volumes, f, box, n);
  // new meshes rather than given ones
  if (f.two && part == volumes) return check_volume<D>(*reparam_general<D, false>(f, box, n), f, box);
  if (f.two && part == boundaries) return check_boundary<D>(*reparam_general<D, true>(f, box, n), f, box);
  if (f.two) {
    const int facet = qv::each("facet", 0, 2 * D - 1);
    return check_facet<D>(*reparam_general_facet<D>(f, box, facet, n), f, box, facet);
  }
  if (part == volumes) {
    ImplReparamMesh<D, D> m(n);
    reparam_general<D, false>(f, box, m);
    check_volume<D>(m, f, box);
  } else if (part == boundaries) {
    ImplReparamMesh<D - 1, D> m(n);
    reparam_general<D, true>(f, box, m);
    check_boundary<D>(m, f, box);
  } else {
    const int facet = qv::each("facet", 0, 2 * D - 1);
    ImplReparamMesh<D - 1, D> m(n);
    reparam_general_facet<D>(f, box, facet, m);
    check_facet<D>(m, f, box, facet);
  }
}
void line(int part, int n, bool through)
{
  const auto box = the_box<2>();
  Plane<2> f;
  const int sx = qv::each("sx", -1, 1), sy = qv::each("sy", -1, 1);
  if (through && (sx == 0 || sy == 0)) return;
  any_line(f, box, sx, sy, through ? qv::each("corner", 0, 3) : -1);
  reparam<2>(part, f, box, n);
}
// any line of a few directions
void some_lines(int part, int n)
{
  const auto box = the_box<2>();
  Plane<2> f;
  constexpr std::array<std::array<int, 2>, 6> dirs{ { { 1, 0 }, { 0, -1 }, { 1, 2 }, { -3, 1 }, { 2, -5 }, { -1, -1 } } };
  const int k = qv::each("direction", 0, 5);
  for (int d = 0; d < 2; ++d) f.n(d) = el(el(dirs, k), d);
  f.c = qv_real("c");
  away_from_corners<2>(f, f.c, box);
  reparam<2>(part, f, box, n);
}
// a strip between two lines, or all but it
void strip(int part, int n, int nx, int ny, real c, real e, real width)
{
  const auto box = the_box<2>();
  Plane<2> f;
  f.two = true;
  f.n(0) = nx;
  f.n(1) = ny;
  f.c = qv_real("c");
  f.e = qv_real("e");
  f.s = qv::each("outside", 0, 1) == 1 ? -1.0 : 1.0;
  qv_assume(f.c > c && f.c < c + width && f.e > e && f.e < e + width);
  reparam<2>(part, f, box, n);
}
// any plane of a few directions
void plane(int part, int n, bool through = false)
{
  const auto box = the_box<3>();
  Plane<3> f;
  constexpr std::array<std::array<int, 3>, 6> dirs{ { { 1, 0, 0 }, { 0, -1, 0 }, { 1, 0, -2 }, { 3, 1, 1 }, { -1, 2, -1 }, { 1, 1, -4 } } };
  const int k = qv::each("direction", through ? 2 : 0, 5);
  for (int d = 0; d < 3; ++d) f.n(d) = el(el(dirs, k), d);
  int corner = -1;
  if (through) {
    corner = qv::each("corner", 0, 7);
    for (int d = 0; d < 3; ++d) f.c += f.n(d) * ((corner >> d) % 2 == 1 ? box.max(d) : box.min(d));
  } else {
    f.c = qv_real("c");
    away_from_corners<3>(f, f.c, box);
  }
  reparam<3>(part, f, box, n);
}
// a steep or a flat line, as floating point finds it
void scaled(int part, int n)
{
  const auto box = the_box<2>();
  Plane<2> f;
  f.n(0) = qv::each("n0", -9, 9) / 7.0;
  f.n(1) = qv::each("n1", -9, 9) / 7.0;
  if (f.n(0) == 0.0 && f.n(1) == 0.0) return;
  f.c = qv::each("c", -60, 60) / 3.3;
  for (int i = 0; i < 4; ++i) {
    const real v = f.n(0) * (i % 2 == 0 ? 1.0 : 3.0) + f.n(1) * (i < 2 ? 2.0 : 5.0) - f.c;
    if (v < 0.01 && v > -0.01) return;
  }
  f.s = std::pow(10.0, qv::each("scale", -8, 8));
  reparam<2>(part, f, box, n);
}
// A ball, or all but it: nothing that a reparameterization should match exactly
template<int D> struct Ball : ImplicitFunc<D>
{
  using I = algoim::Interval<D>;
  Point<D> o;
  real r{ 1.0 };
  real s{ 1.0 };
  static inline Ball *current{ nullptr };
  template<typename T> T value(const Vector<T, D> &x) const
  {
    T v = -r * r;
    for (int d = 0; d < D; ++d) v += (x(d) - o(d)) * (x(d) - o(d));
    return s * v;
  }
  template<typename T> Vector<T, D> slope(const Vector<T, D> &x) const
  {
    Vector<T, D> g;
    for (int d = 0; d < D; ++d) g(d) = 2.0 * s * (x(d) - o(d));
    return g;
  }
  real operator()(const Point<D> &x) const override { return value<real>(x); }
  I operator()(const Point<D, I> &x) const override { return value<I>(x); }
  Vector<real, D> grad(const Point<D> &x) const override { return slope<real>(x); }
  Vector<I, D> grad(const Point<D, I> &x) const override { return slope<I>(x); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
  static void roots(const algoim::uvector<real, D> &x, int dir, real a, real b, std::vector<real> &r)
  {
    const auto &p = *current;
    real q = p.r * p.r;
    for (int d = 0; d < D; ++d)
      if (d != dir) q -= (x(d) - p.o(d)) * (x(d) - p.o(d));
    if (q < 0.0) return;
    q = std::sqrt(q);
    for (const real v : { p.o(dir) - q, p.o(dir) + q })
      if (a <= v && v <= b) r.push_back(v);
  }
  // fraction of a box inside the ball along direction dir through x
  real chord(const Point<D> &x, int dir, real a, real b) const
  {
    real q = r * r;
    for (int d = 0; d < D; ++d)
      if (d != dir) q -= (x(d) - o(d)) * (x(d) - o(d));
    if (q <= 0.0) return 0.0;
    q = std::sqrt(q);
    const real lo = std::max(a, o(dir) - q), hi = std::min(b, o(dir) + q);
    return hi > lo ? hi - lo : 0.0;
  }
};
// volume by columns
template<int D> real volume_inside(const Ball<D> &f, const BoundBox<D> &box, int n)
{
  int all = 1;
  real w = 1.0;
  for (int d = 1; d < D; ++d) {
    all *= n;
    w *= (box.max(d) - box.min(d)) / n;
  }
  real v = 0.0;
  for (int k = 0; k < all; ++k) {
    Point<D> x(0.0);
    for (int d = 1, r = k; d < D; ++d, r /= n) x(d) = box.min(d) + (box.max(d) - box.min(d)) * (r % n + 0.5) / n;
    v += w * f.chord(x, 0, box.min(0), box.max(0));
  }
  return f.s < 0.0 ? volume<D>(box) - v : v;
}
template<int D> void ball(int n, bool special = false)
{
  const auto box = special ? BoundBox<D>(Point<D>(0.0), Point<D>(2.0)) : the_box<D>();
  Ball<D> f;
  Ball<D>::current = &f;
  algoim::RootHook<D>::find = Ball<D>::roots;
  for (int d = 0; d < D; ++d) f.o(d) = special ? qv::each(qv::idx("o", d), 0, 2) : 0.5 + 0.13 * qv::each(qv::idx("o", d), 0, 40);
  f.r = special ? std::sqrt(static_cast<real>(qv::each("r2", 1, 5))) : 0.31 + 0.17 * qv::each("r", 0, 20);
  f.s = qv::each("outside", 0, 1) == 1 ? -1.0 : 1.0;
  ImplReparamMesh<D, D> m(n);
  reparam_general<D, false>(f, box, m);
  for (const auto &x : m.get_points()) {
    for (int d = 0; d < D; ++d) qv_check(x(d) >= box.min(d) - 1.0e-9 && x(d) <= box.max(d) + 1.0e-9, "reparameterizations are inside the cell");
  }
  // volume by the differences of multilinear pieces: only approximate
  real vol = 0.0;
  const auto &p = m.get_points();
  const auto &c = m.get_connectivity();
  int per = 1;
  for (int d = 0; d < D; ++d) per *= n;
  for (int k = 0; k < static_cast<int>(m.get_num_cells()); ++k) {
    for (int piece = 0; piece < per; ++piece) {
      std::array<int, D> t{};
      bool last = false;
      for (int d = 0, r = piece; d < D; ++d, r /= n) {
        el(t, d) = r % n;
        last = last || r % n == n - 1;
      }
      if (last) continue;
      Cell<D, D> cell;
      for (int v = 0; v < (1 << D); ++v) {
        int i = 0;
        for (int d = D - 1; d >= 0; --d) i = i * n + el(t, d) + (v >> d) % 2;
        el(cell.v, v) = p[el(c, k * per + i)];
      }
      const real j = jacobian_integral<D>(cell);
      qv_check(j >= -1.0e-6, "cells of reparameterizations are oriented positively");
      vol += j;
    }
  }
  const real want = volume_inside<D>(f, box, D == 2 ? 4000 : 200);
  const real off = vol - want;
  qv_check(off < 0.08 * volume<D>(box) && off > -0.08 * volume<D>(box), "reparameterizations cover the part of the cell inside the domain");
}
}// namespace
HARNESS(n_line) { line(volumes, 2, false); }
HARNESS(n_line_cubic) { line(volumes, 4, true); }
HARNESS(n_line_corner) { line(volumes, 2, true); }
HARNESS(n_line_boundary) { line(boundaries, 2, false); }
HARNESS(n_line_boundary_corner) { line(boundaries, 2, true); }
HARNESS(n_line_facets) { line(facets, 2, false); }
HARNESS(n_line_facets_corner) { line(facets, 2, true); }
HARNESS(n_strip) { strip(volumes, 2, 0, 1, 2.3, 4.2, 0.1); }
HARNESS(n_strip_boundary) { strip(boundaries, 2, 0, 1, 2.3, 4.2, 0.1); }
HARNESS(n_strip_facets) { strip(facets, 2, 0, 1, 2.3, 4.2, 0.1); }
HARNESS(n_slanted_strip) { strip(volumes, 2, 1, 3, 9.39, 14.39, 0.04); }
HARNESS(n_plane) { plane(volumes, 2); }
HARNESS(n_plane_boundary) { plane(boundaries, 2); }
HARNESS(n_plane_facets) { plane(facets, 2); }
HARNESS(n_plane_corner) { plane(volumes, 2, true); }
HARNESS(n_plane_boundary_corner) { plane(boundaries, 2, true); }
HARNESS(n_plane_facets_corner) { plane(facets, 2, true); }
HARNESS(b_scaled) { scaled(volumes, 2); }
HARNESS(b_scaled_boundary) { scaled(boundaries, 2); }
HARNESS(n_bezier_some_lines) { some_lines(bezier_volumes, 2); }
HARNESS(t_n_bezier_line) { line(bezier_volumes, 2, false); }
HARNESS(n_bezier_line_corner) { line(bezier_volumes, 2, true); }
HARNESS(n_bezier_line_cubic) { line(bezier_volumes, 4, true); }
HARNESS(n_bezier_some_lines_boundary) { some_lines(bezier_boundaries, 2); }
HARNESS(n_bezier_line_boundary_corner) { line(bezier_boundaries, 2, true); }
HARNESS(n_bezier_plane) { plane(bezier_volumes, 2); }
HARNESS(n_bezier_plane_corner) { plane(bezier_volumes, 2, true); }
HARNESS(n_bezier_plane_boundary) { plane(bezier_boundaries, 2); }
HARNESS(n_bezier_plane_boundary_corner) { plane(bezier_boundaries, 2, true); }
HARNESS(b_ball2) { ball<2>(6); }
HARNESS(b_ball3) { ball<3>(5); }
// balls that touch faces of the cell, and whose sections by a face meet at its edges or vertices
HARNESS(b_touching2) { ball<2>(6, true); }
