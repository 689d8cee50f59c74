// Contracts of Tolerance, BoundBox, CartGridTP and SubCartGridTP.
#include <cassert>
#include "qvc.h"
#include "repo.h"
#include QV_SRC(tolerance.cpp)
#include QV_SRC(tensor_index_tp.cpp)
#include QV_SRC(bbox.cpp)
#include QV_SRC(cart_grid_tp.cpp)
using namespace qugar;
namespace {
template<int N> Point<N> pt(const char *b) { return qv::vec<Point<N>, N>(b); }
template<int N> BoundBox<N> box(const char *a, const char *b, bool nonempty = true)
{
  const auto p = pt<N>(a), q = pt<N>(b);
  for (int i = 0; i < N; ++i) qv_assume(nonempty ? p(i) < q(i) : p(i) <= q(i));
  return BoundBox<N>(p, q);
}
// ---------------------------------------------------------------- bounding box
template<int N> void box_basics()
{
  const auto a = pt<N>("a"), b = pt<N>("b"), p = pt<N>("p");
  for (int i = 0; i < N; ++i) qv_assume(a(i) <= b(i));
  BoundBox<N> x(a, b);
  real vol = 1.0;
  for (int i = 0; i < N; ++i) {
    qv_check_eq(x.min(i), a(i), "min");
    qv_check_eq(x.max(i), b(i), "max");
    qv_check_eq(x.min_corner()(i), a(i), "min corner");
    qv_check_eq(x.max_corner()(i), b(i), "max corner");
    qv_check_eq(x.length(i), b(i) - a(i), "length");
    qv_check_eq(x.get_lengths()(i), b(i) - a(i), "lengths");
    qv_check_eq(x.mid_point()(i) * 2.0, a(i) + b(i), "mid point");
    vol *= b(i) - a(i);
  }
  qv_check_eq(x.volume(), vol, "volume");
  const auto h = x.to_hyperrectangle();
  const BoundBox<N> y(h);
  for (int i = 0; i < N; ++i) qv_check(y.min(i) == a(i) && y.max(i) == b(i), "hyperrectangle round trip keeps the box");
  const BoundBox<N> unit;
  for (int i = 0; i < N; ++i) qv_check(unit.min(i) == 0.0 && unit.max(i) == 1.0, "default box is the unit box");
  // smallest box containing both
  x.extend(p);
  for (int i = 0; i < N; ++i) {
    qv_check(x.min(i) <= a(i) && b(i) <= x.max(i), "extended box contains the old one");
    qv_check(x.min(i) <= p(i) && p(i) <= x.max(i), "extended box contains the point");
    qv_check((x.min(i) == a(i) || x.min(i) == p(i)) && (x.max(i) == b(i) || x.max(i) == p(i)), "extended box is the smallest one");
  }
}
template<int N> void box_delta()
{
  const auto x = box<N>("a", "b", false);
  const real d = qv_real("d");
  qv_assume(d >= 0.0);
  const auto y = x.extend(d);
  for (int i = 0; i < N; ++i) {
    qv_check_eq(y.min(i), x.min(i) - d, "box grows by delta below");
    qv_check_eq(y.max(i), x.max(i) + d, "box grows by delta above");
  }
  const real lo = qv_real("lo"), hi = qv_real("hi");
  qv_assume(lo <= hi);
  const BoundBox<N> c(lo, hi);
  std::array<real, N> al, ah;
  for (int i = 0; i < N; ++i) {
    qv_check(c.min(i) == lo && c.max(i) == hi, "cube box");
    al[i] = x.min(i);
    ah[i] = x.max(i);
  }
  const BoundBox<N> z(al, ah);
  for (int i = 0; i < N; ++i) qv_check(z.min(i) == al[i] && z.max(i) == ah[i], "box from arrays");
}
template<int N> void box_scale()
{
  const auto x = box<N>("a", "b"), y = box<N>("c", "d");
  const auto p = pt<N>("p");
  const auto u = x.scale_to_0_1(p);
  for (int i = 0; i < N; ++i) {
    qv_check_eq(x.scale_from_0_1(u)(i), p(i), "scaling to the unit box and back is the identity");
    qv_check_eq(x.scale_to_0_1(x.scale_from_0_1(p))(i), p(i), "scaling from the unit box and back is the identity");
    qv_check_eq(x.scale_to_new_domain(y, p)(i), y.scale_from_0_1(u)(i), "scaling to another box goes through the unit box");
    qv_check_eq(x.scale_to_0_1(x.min_corner())(i), 0.0, "the lower corner maps to 0");
    qv_check_eq(x.scale_to_0_1(x.max_corner())(i), 1.0, "the upper corner maps to 1");
  }
}
template<int N> void box_slice()
{
  const auto x = box<N>("a", "b", false);
  for (int k = 0; k < N; ++k) {
    const auto s = x.slice(k);
    for (int i = 0, j = 0; i < N; ++i)
      if (i != k) {
        qv_check(s.min(j) == x.min(i) && s.max(j) == x.max(i), "slice keeps the other directions in order");
        ++j;
      }
  }
}
// ---------------------------------------------------------------- grid
template<int N> std::array<std::vector<real>, N> breaks(const std::array<int, N> &n, real gap)
{
  std::array<std::vector<real>, N> b;
  for (int i = 0; i < N; ++i)
    for (int k = 0; k <= n[i]; ++k) {
      const real v = qv_real(qv::idx2("b", i, k));
      if (k > 0) qv_assume(b[i].back() + gap < v);
      b[i].push_back(v);
    }
  return b;
}
template<int N> std::array<int, N> counts(int top)
{
  std::array<int, N> n;
  for (int i = 0; i < N; ++i) n[i] = qv::integer(qv::idx("n", i), 1, top);
  return n;
}
template<int N> void cells(int top)
{
  const auto n = counts<N>(top);
  const auto b = breaks<N>(n, 0.0);
  const CartGridTP<N> g(b);
  std::size_t total = 1;
  for (int i = 0; i < N; ++i) {
    qv_check(g.get_num_cells_dir()(i) == n[i], "number of cells per direction");
    qv_check(g.get_domain().min(i) == b[i].front() && g.get_domain().max(i) == b[i].back(), "grid domain");
    qv_check(g.get_breaks(i).size() == b[i].size(), "breaks are kept");
    for (int k = 0; k <= n[i]; ++k) qv_check(g.get_breaks(i)[k] == b[i][k], "breaks are kept");
    total *= n[i];
  }
  qv_check(g.get_num_cells() == total, "number of cells");
  for (std::int64_t c = 0; c < static_cast<std::int64_t>(total); ++c) {
    const auto t = g.to_tensor(c);
    qv_check(g.to_flat(t) == c, "cell indices round trip");
    const auto d = g.get_cell_domain(c);
    for (int i = 0; i < N; ++i) {
      qv_check(0 <= t(i) && t(i) < n[i], "cell index inside the grid");
      qv_check(d.min(i) == b[i][t(i)] && d.max(i) == b[i][t(i) + 1], "cell domain spans consecutive breaks");
    }
    for (int f = 0; f < 2 * N; ++f)
      qv_check(g.on_boundary(c, f) == (f % 2 == 0 ? t(f / 2) == 0 : t(f / 2) == n[f / 2] - 1), "a facet is on the boundary iff its cell is the first or last");
  }
  for (int f = 0; f < 2 * N; ++f) {
    const auto cs = g.get_boundary_cells(f);
    std::size_t k = 0;
    for (std::int64_t c = 0; c < static_cast<std::int64_t>(total); ++c)
      if (g.on_boundary(c, f)) {
        qv_check(k < cs.size() && cs[k] == c, "boundary cells are the cells with a facet on that side, ascending");
        ++k;
      }
    qv_check(k == cs.size(), "no other boundary cells");
  }
}
template<int N> void locate(int top)
{
  const auto n = counts<N>(top);
  const real tol = qv_real("tol");
  qv_assume(tol >= 0.0);
  const auto b = breaks<N>(n, 2.0 * tol);
  const CartGridTP<N> g(b);
  const auto p = pt<N>("p");
  for (int i = 0; i < N; ++i) {
    qv_assume(b[i].front() - tol <= p(i));
    qv_assume(p(i) <= b[i].back() + tol);
  }
  const Tolerance t(tol);
  const auto tid = g.to_tensor(g.get_cell_id(p, t));
  int dir = -1;
  for (int i = N - 1; i >= 0; --i) {
    qv_check(b[i][tid(i)] - tol <= p(i) && p(i) <= b[i][tid(i) + 1] + tol, "the point lies in the cell, up to the tolerance");
    qv_check(tid(i) == 0 || b[i][tid(i)] + tol < p(i), "of several cells the lowest one is returned");
    for (int k = 1; k < n[i]; ++k)
      if (t.equal(b[i][k], p(i))) dir = i;
  }
  const auto at = g.at_cells_boundary(p, t);
  qv_check(at.has_value() == (dir >= 0), "a point is at a cells' boundary iff it is close to an interior break");
  if (at.has_value()) qv_check(*at == dir, "the first such direction is returned");
}
template<int N> void equispaced(int top)
{
  const auto d = box<N>("a", "b");
  std::array<std::size_t, N> n;
  for (int i = 0; i < N; ++i) n[i] = static_cast<std::size_t>(qv::integer(qv::idx("n", i), 1, top));
  const CartGridTP<N> g(d, n), u(n);
  for (int i = 0; i < N; ++i) {
    const auto &b = g.get_breaks(i), &c = u.get_breaks(i);
    qv_check(b.size() == n[i] + 1 && c.size() == n[i] + 1, "number of breaks");
    for (std::size_t k = 0; k <= n[i]; ++k) {
      qv_check_eq((b[k] - d.min(i)) * static_cast<real>(n[i]), d.length(i) * static_cast<real>(k), "breaks are equispaced");
      qv_check_eq(c[k] * static_cast<real>(n[i]), static_cast<real>(k), "breaks of the unit grid are equispaced");
    }
  }
}
template<int N> void subgrid(int top)
{
  const auto n = counts<N>(top);
  const auto b = breaks<N>(n, 0.0);
  const auto g = std::make_shared<const CartGridTP<N>>(b);
  TensorIndexTP<N> lo, up;
  int total = 1;
  bool full = true;
  for (int i = 0; i < N; ++i) {
    lo(i) = qv::integer(qv::idx("lo", i), 0, top);
    up(i) = qv::integer(qv::idx("up", i), 0, top);
    qv_assume(lo(i) < up(i) && up(i) <= n[i]);
    total *= up(i) - lo(i);
    full = full && up(i) - lo(i) == n[i];
  }
  const SubCartGridTP<N> s(g, lo, up);
  qv_check(static_cast<int>(s.get_num_cells()) == total, "number of cells of the subgrid");
  qv_check(s.is_unique_cell() == (total == 1), "unique cell");
  qv_check(s.is_full() == full, "full subgrid");
  qv_check(s.get_grid() == g, "underlying grid");
  const auto d = s.get_domain();
  for (int i = 0; i < N; ++i) {
    qv_check(s.get_num_cells_dir()(i) == up(i) - lo(i), "cells per direction");
    qv_check(d.min(i) == b[i][lo(i)] && d.max(i) == b[i][up(i)], "domain of the subgrid spans its cells");
  }
  qv_check(s.to_flat(lo) == g->to_flat(lo), "cell ids of the subgrid are the ids in the grid");
  if (total == 1) qv_check(s.get_single_cell() == g->to_flat(lo), "single cell id");
  else {
    const auto ab = s.split();
    qv_check(ab[0]->get_num_cells() + ab[1]->get_num_cells() == s.get_num_cells(), "the halves have all the cells");
    for (const auto &h : ab) {
      qv_check(h->get_num_cells() > 0 && h->get_grid() == g, "the halves are non-empty and share the grid");
      for (const auto &t : h->get_range()) qv_check(s.get_range().is_in_range(t), "the halves lie inside the subgrid");
    }
    for (const auto &t : s.get_range())
      qv_check(ab[0]->get_range().is_in_range(t) != ab[1]->get_range().is_in_range(t), "every cell is in exactly one half");
  }
  const SubCartGridTP<N> w(g);
  qv_check(w.is_full() && w.get_num_cells() == g->get_num_cells(), "the default subgrid is the whole grid");
}
}// namespace
HARNESS(box_basics1) { box_basics<1>(); }
HARNESS(box_basics2) { box_basics<2>(); }
HARNESS(box_basics3) { box_basics<3>(); }
HARNESS(box_delta1) { box_delta<1>(); }
HARNESS(box_delta2) { box_delta<2>(); }
HARNESS(box_delta3) { box_delta<3>(); }
HARNESS(box_scale1) { box_scale<1>(); }
HARNESS(box_scale2) { box_scale<2>(); }
HARNESS(box_scale3) { box_scale<3>(); }
HARNESS(box_slice2) { box_slice<2>(); }
HARNESS(box_slice3) { box_slice<3>(); }
HARNESS(n_cells2) { cells<2>(3); }
HARNESS(n_cells3) { cells<3>(2); }
HARNESS(n_locate2) { locate<2>(3); }
HARNESS(n_locate3) { locate<3>(2); }
HARNESS(n_equispaced2) { equispaced<2>(3); }
HARNESS(n_equispaced3) { equispaced<3>(2); }
HARNESS(n_subgrid2) { subgrid<2>(3); }
HARNESS(n_subgrid3) { subgrid<3>(2); }
HARNESS(t_cells2) { cells<2>(6); }
HARNESS(t_cells3) { cells<3>(4); }
HARNESS(t_locate3) { locate<3>(5); }
HARNESS(t_subgrid3) { subgrid<3>(4); }
// ---------------------------------------------------------------- tolerance
HARNESS(tolerance)
{
  const real t = qv_real("t"), a = qv_real("a"), b = qv_real("b"), s = qv_real("s");
  qv_assume(t >= 0.0);
  qv_assume(s >= 0.0);
  const Tolerance tol(t);
  const real d = a > b ? a - b : b - a;
  qv_check(tol.value() == t, "value");
  qv_check(tol.is_zero(a) == (-t <= a && a <= t), "is_zero is |v| <= tol");
  qv_check(tol.is_negative(a) == (a < -t), "is_negative");
  qv_check(tol.is_positive(a) == (a > t), "is_positive");
  qv_check((tol.is_zero(a) ? 1 : 0) + (tol.is_negative(a) ? 1 : 0) + (tol.is_positive(a) ? 1 : 0) == 1, "a value is zero, negative or positive, exactly one");
  qv_check(tol.equal(a, b) == (d <= t) && tol.equal(b, a) == tol.equal(a, b), "equal is symmetric and |a-b| <= tol");
  qv_check(tol.greater_than(a, b) == (a - b > t), "greater_than");
  qv_check(tol.smaller_than(a, b) == (b - a > t), "smaller_than");
  qv_check(tol.greater_equal_than(a, b) == (tol.equal(a, b) || tol.greater_than(a, b)), "greater_equal_than");
  qv_check(tol.smaller_equal_than(a, b) == (tol.equal(a, b) || tol.smaller_than(a, b)), "smaller_equal_than");
  qv_check((tol.equal(a, b) ? 1 : 0) + (tol.greater_than(a, b) ? 1 : 0) + (tol.smaller_than(a, b) ? 1 : 0) == 1, "two values are equal, greater or smaller, exactly one");
  const real aa = a < 0.0 ? -a : a, ab = b < 0.0 ? -b : b, m = aa < ab ? ab : aa;
  qv_check(tol.equal_rel(a, b) == (d <= m * t), "relative equality");
  qv_check(tol.equal_rel(a, b, Tolerance(s)) == (d <= t + s * m), "mixed equality");
  qv_check(tol.greater_than_rel(a, b) == (a - b > m * t), "relative greater");
  qv_check(tol.smaller_than_rel(a, b) == (b - a > m * t), "relative smaller");
  const real mx = t < s ? s : t;
  Tolerance u(t);
  u.update(s);
  Tolerance v(t);
  v.update(Tolerance(s));
  qv_check(u.value() == mx && v.value() == mx && Tolerance(t, s).value() == mx && Tolerance(Tolerance(t), Tolerance(s)).value() == mx, "combined tolerance is the larger one");
  qv_check(Tolerance().value() > 0.0 && Tolerance().value() < 1.0e-10, "default tolerance is near machine precision");
}
template<int N> void coincident()
{
  const auto a = pt<N>("a"), b = pt<N>("b");
  const real t = qv_real("t");
  qv_assume(t >= 0.0);
  bool all = true;
  for (int i = 0; i < N; ++i) all = all & (a(i) - b(i) <= t) & (b(i) - a(i) <= t);
  qv_check(Tolerance(t).coincident<N, real>(a, b) == all, "points coincide iff every component is equal up to the tolerance");
}
HARNESS(coincident2) { coincident<2>(); }
HARNESS(coincident3) { coincident<3>(); }
static void unique_values(int top)
{
  const int n = qv::integer("n", 0, top);
  const real t = qv_real("t");
  qv_assume(t >= 0.0);
  std::vector<real> v;
  for (int i = 0; i < n; ++i) v.push_back(qv_real(qv::idx("v", i)));
  auto w = v;
  Tolerance(t).unique(w);
  for (std::size_t i = 1; i < w.size(); ++i) qv_check(w[i - 1] + t < w[i], "values are strictly increasing and apart");
  for (const real x : w) {
    bool found = false;
    for (const real y : v) found = found || x == y;
    qv_check(found, "only given values are kept");
  }
  qv_check(n == 0 || !w.empty(), "something is kept");
  // every value is represented when clusters are apart: t = 0
  if (t == 0.0)
    for (const real y : v) {
      bool found = false;
      for (const real x : w) found = found || x == y;
      qv_check(found, "no distinct value is lost");
    }
}
HARNESS(n_unique) { unique_values(3); }
HARNESS(b_unique) { unique_values(8); }
