// Contracts of the quadratures of cells, facets and unfitted boundaries: which
// entities get points, how many, where, with which weights and normals. The
// points of a part of a cell or facet are algoim's: here any that the harness says.
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_quadrature.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/unfitted_domain.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <vector>
#include <algoim/quadrature_general.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
using Ids = std::vector<std::int64_t>;
template<typename T> auto &el(T &v, int i) { return v[static_cast<std::size_t>(i)]; }
enum State { neg, pos, und_none, und_all, und_part };
enum Kind { inside, tangent, unf, ext };
// two cells in the first direction; only one of them is neither negative nor positive
struct World
{
  std::array<real, 3> h{ 1.0, 1.0, 1.0 }, o{ 0.0, 0.0, 0.0 };
  std::array<int, 2> state{ neg, neg };
  int cell = 0, f = 0;
  int n_nodes = 0;
  std::array<int, 2> kind{ inside, inside };
  bool full_measure = true;
  bool kids_match = true;
  int n_asked = 0, n_pts = 0;
};
World w;
template<int D> int cell_at(const real *x)
{
  return x[0] > w.o[0] + w.h[0] ? 1 : 0;
}
template<int D> real coord(int cell, int d, real t) { return el(w.o, d) + el(w.h, d) * (t + (d == 0 ? cell : 0)); }
template<int D> bool node_of(const Point<D> &x, int &facet, int &k)
{
  for (int d = 0; d < D; ++d)
    for (int s = 0; s < 2; ++s) {
      if (!(x(d) == coord<D>(w.cell, d, s))) continue;
      const int free = d == 0 ? 1 : 0;
      facet = 2 * d + s;
      k = x(free) < coord<D>(w.cell, free, 0.5) ? 0 : 1;
      return true;
    }
  return false;
}
template<int D> void facet_nodes(int f)
{
  using H = algoim::QuadHook<D>;
  const int n = f == w.f ? w.n_nodes : 1;
  for (int k = 0; k < n; ++k) {
    algoim::uvector<real, D> x(0.5);
    x(f / 2 == 0 ? 1 : 0) = k == 0 ? 0.25 : 0.75;
    H::nodes.push_back(x);
    H::weights.push_back((f != w.f || w.full_measure ? 1.0 : 0.25) / n);
  }
}
template<int D> void prepare(int dim, int side, const algoim::uvector<real, D> &lo, const algoim::uvector<real, D> &hi)
{
  using H = algoim::QuadHook<D>;
  H::nodes.clear();
  H::weights.clear();
  if (dim >= 0) {
    facet_nodes<D>(2 * dim + side);
    return;
  }
  real mid[3] = { 0.0, 0.0, 0.0 };
  for (int d = 0; d < D; ++d) mid[d] = 0.5 * (lo(d) + hi(d));
  const int st = el(w.state, cell_at<D>(mid));
  if (st == und_none) return;
  H::nodes.push_back(algoim::uvector<real, D>(0.5));
  H::weights.push_back(st == und_all ? 1.0 : 0.375);
}
// nodes of the surface in the cell: one in the middle, those on the facet
template<int D> bool on_surface(int k) { return k < w.n_nodes && w.kind[static_cast<std::size_t>(k)] != inside; }
template<int D> void integral(bool surface, const algoim::uvector<bool, D> &free, const algoim::PsiCode<D> &psi, const algoim::uvector<real, D> &lo, const algoim::uvector<real, D> &hi, int n)
{
  using H = algoim::QuadHook<D>;
  H::nodes.clear();
  H::weights.clear();
  ++w.n_asked;
  bool ok = n == w.n_pts;
  int dir = -1, fixed = 0;
  for (int d = 0; d < D; ++d) {
    ok = ok && lo(d) == coord<D>(w.cell, d, 0.0) && hi(d) == coord<D>(w.cell, d, 1.0);
    if (!free(d)) {
      dir = d;
      ++fixed;
    }
  }
  ok = ok && fixed <= 1 && psi.sign() == -1;
  qv_check(ok, "algoim is asked for the negative part of the cell, or of one of its facets");
  if (fixed == 1) {
    facet_nodes<D>(2 * dir + psi.side(dir));
    return;
  }
  H::nodes.push_back(algoim::uvector<real, D>(surface ? 0.25 : 0.375));
  H::weights.push_back(surface ? 0.5 : 0.3125);
  if (!surface) return;
  for (int k = 0; k < 2; ++k) {
    if (!on_surface<D>(k)) continue;
    algoim::uvector<real, D> x(0.5);
    x(w.f / 2) = w.f % 2;
    x(w.f / 2 == 0 ? 1 : 0) = k == 0 ? 0.25 : 0.75;
    H::nodes.push_back(x);
    H::weights.push_back(0.125 * (k + 1));
  }
}
template<int D> struct Phi : ImplicitFunc<D>
{
  using I = algoim::Interval<D>;
  real operator()(const Point<D> &x) const override
  {
    int f = 0, k = 0;
    if (!node_of<D>(x, f, k) || f != w.f) return -1.0;
    return el(w.kind, k) == inside ? -1.0 : 0.0;
  }
  I operator()(const Point<D, I> &x) const override
  {
    bool any_neg = false, any_pos = false, any_und = false;
    for (int c = 0; c < 2; ++c) {
      const real m = coord<D>(c, 0, 0.5), a = x(0).alpha, h = I::delta(0);
      if (!(m > a - h && m < a + h)) continue;
      any_neg = any_neg || el(w.state, c) == neg;
      any_pos = any_pos || el(w.state, c) == pos;
      any_und = any_und || el(w.state, c) > pos;
    }
    if (any_und || (any_neg && any_pos)) return I(0.0, algoim::uvector<real, D>(0.0), 1.0);
    return I(any_neg ? -1.0 : 1.0);
  }
  Vector<real, D> grad(const Point<D> &x) const override
  {
    int f = 0, k = 0;
    Vector<real, D> g(0.0);
    if (!node_of<D>(x, f, k)) {
      g(0) = 3.0;
      g(1) = -4.0;
      return g;
    }
    const int kd = f == w.f ? el(w.kind, k) : inside;
    const real out = f % 2 == 0 ? -2.0 : 2.0;
    if (kd == unf) g(f / 2) = out;
    else if (kd == ext) g(f / 2) = -out;
    else g(f / 2 == 0 ? 1 : 0) = 3.0;
    return g;
  }
  Vector<I, D> grad(const Point<D, I> &) const override { return Vector<I, D>(); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
};
template<int D> using Dom = UnfittedImplDomain<D>;
template<int D> Dom<D> make()
{
  algoim::QuadHook<D>::prepare = prepare<D>;
  algoim::QuadHook<D>::integral = integral<D>;
  std::array<std::vector<real>, D> b;
  for (int d = 0; d < D; ++d)
    for (int i = 0; i <= (d == 0 ? 2 : 1); ++i) el(b, d).push_back(el(w.o, d) + el(w.h, d) * i);
  return Dom<D>(std::make_shared<Phi<D>>(), std::make_shared<const CartGridTP<D>>(b));
}
void start()
{
  w = World();
  w.h = { 0.5, 2.0, 4.0 };
  w.o = { 1.0, -2.0, 8.0 };
}
bool near(real a, real b) { return a - b < 1e-13 && b - a < 1e-13; }
// a point of a rule: where, how much, normal to what
template<int D> struct Node
{
  Point<D> x;
  real w;
  Point<D> n;
};
template<int D> bool same(const Node<D> &a, const Node<D> &b)
{
  bool ok = near(a.w, b.w);
  for (int d = 0; d < D; ++d) ok = ok && near(a.x(d), b.x(d)) && near(a.n(d), b.n(d));
  return ok;
}
template<int D> using Nodes = std::vector<Node<D>>;
// the part [at, at + n) of the lists holds the expected nodes, in any order
template<int D> bool matches(const Nodes<D> &want, const std::vector<Point<D>> &x, const std::vector<real> &ws, const std::vector<Point<D>> *nr, int at, int n)
{
  if (n != static_cast<int>(want.size()) || at + n > static_cast<int>(x.size()) || x.size() != ws.size() || (nr != nullptr && nr->size() != x.size())) return false;
  std::vector<bool> used(want.size(), false);
  for (int i = at; i < at + n; ++i) {
    Node<D> got{ el(x, i), el(ws, i), Point<D>(0.0) };
    if (nr != nullptr) got.n = el(*nr, i);
    bool found = false;
    for (std::size_t j = 0; j < want.size() && !found; ++j)
      if (!used[j] && same<D>(want[j], got)) used[j] = found = true;
    if (!found) return false;
  }
  return true;
}
template<int D> Nodes<D> gauss(int n)
{
  Nodes<D> r;
  int total = 1;
  for (int d = 0; d < D; ++d) total *= n;
  for (int i = 0; i < total; ++i) {
    Node<D> a{ Point<D>(0.0), 1.0, Point<D>(0.0) };
    int k = i;
    for (int d = 0; d < D; ++d) {
      a.x(d) = Gauss::get_abscissa(n, k % n);
      a.w *= Gauss::get_weight(n, k % n);
      k /= n;
    }
    r.push_back(a);
  }
  return r;
}
template<int D> Point<D> lift(const Point<D - 1> &x, int dir, real v)
{
  Point<D> r(0.0);
  int k = 0;
  for (int d = 0; d < D; ++d) {
    if (d == dir) r(d) = v;
    else {
      r(d) = x(k);
      ++k;
    }
  }
  return r;
}
// the expected rule of the facet of a cell
template<int D> Nodes<D - 1> facet_rule(const Dom<D> &dom, int cell, int f, int n, bool with_inside, bool with_unf)
{
  const bool full_unf = dom.is_full_unfitted_facet(cell, f);
  if (dom.is_full_facet(cell, f)) return with_inside ? gauss<D - 1>(n) : Nodes<D - 1>();
  if (full_unf) return with_unf ? gauss<D - 1>(n) : Nodes<D - 1>();
  Nodes<D - 1> r;
  if (cell != w.cell || dom.is_empty_facet(cell, f)) return r;
  const int nn = f == w.f ? w.n_nodes : 1;
  for (int k = 0; k < nn; ++k) {
    const int kd = f == w.f ? el(w.kind, k) : inside;
    if (!((kd == inside && with_inside) || (kd == unf && with_unf))) continue;
    Node<D - 1> a{ Point<D - 1>(0.5), (f != w.f || w.full_measure ? 1.0 : 0.25) / nn, Point<D - 1>(0.0) };
    a.x(0) = k == 0 ? 0.25 : 0.75;
    r.push_back(a);
  }
  return r;
}
// -------------------------------------------------------------- whole cells
template<int D> void cells()
{
  start();
  w.cell = qv::each("cell", 0, 1);
  for (int c = 0; c < 2; ++c) el(w.state, c) = c == w.cell ? qv::each("state", 0, 4) : qv::each("other", 0, 1);
  const auto dom = make<D>();
  const bool rev = qv_each("reversed", 0, 1) == 1;
  const Ids ids = rev ? Ids{ 1, 0, 1 } : Ids{ 0, 1 };
  for (int n = 3; n > 0; --n) {
    w.n_pts = n == 3 ? 1 : n;// the number of points changes from call to call
    const auto q = create_quadrature<D>(dom, ids, w.n_pts);
    qv_check(q->cells == ids, "the cells of the rule are those asked for");
    qv_check(q->n_pts_per_cell.size() == ids.size(), "every cell has a number of points");
    int at = 0;
    for (std::size_t i = 0; i < ids.size(); ++i) {
      const int s = el(w.state, static_cast<int>(ids[i]));
      const bool full = s == neg || s == und_all;
      Nodes<D> want;
      if (full) want = gauss<D>(w.n_pts);
      else if (s == und_part) want.push_back({ Point<D>(0.375), 0.3125, Point<D>(0.0) });
      const int k = q->n_pts_per_cell[i];
      const bool ok = matches<D>(want, q->points, q->weights, nullptr, at, k);
      qv_check(ok || !full, "full cells have the Gauss points of the unit cell");
      qv_check(ok || s != und_part, "cut cells have the points of their part inside, in the unit cell");
      qv_check(ok || (s != pos && s != und_none), "empty cells have no points");
      at += k;
    }
    qv_check(at == static_cast<int>(q->points.size()) && q->points.size() == q->weights.size(), "the numbers of points add up to the points and weights");
  }
}
// ------------------------------------------------------------- facets
template<int D> Dom<D> with_facet(int lo, int hi, bool tangents)
{
  start();
  w.cell = qv::each("cell", 0, 1);
  el(w.state, w.cell) = qv::each("state", und_all, und_part);
  w.f = qv::each("facet", lo, hi);
  w.n_nodes = qv::each("nodes", 0, 2);
  for (int k = 0; k < w.n_nodes; ++k) {
    const int kd = qv::each(qv::idx("kind", k), 0, tangents ? 3 : 2);
    el(w.kind, k) = tangents || kd == 0 ? kd : kd + 1;
  }
  w.full_measure = w.n_nodes == 0 ? false : qv_each("full", 0, 1) == 1;
  return make<D>();
}
template<int D> void facets(int lo, int hi)
{
  const auto dom = with_facet<D>(lo, hi, false);
  const int other = 1 - w.cell, g = (w.f + 1) % (2 * D);
  const Ids ids{ w.cell, other, w.cell };
  const std::vector<int> fs{ w.f, w.f, g };
  for (int n = 2; n > 0; --n) {
    w.n_pts = n;
    for (int which = 0; which < 2; ++which) {
      const bool interior = which == 0;
      const auto q = interior ? create_facets_quadrature_interior_integral<D>(dom, ids, fs, n) : create_facets_quadrature_exterior_integral<D>(dom, ids, fs, n);
      qv_check(q->cells == ids && q->local_facet_ids == fs, "the facets of the rule are those asked for");
      qv_check(q->n_pts_per_facet.size() == ids.size(), "every facet has a number of points");
      int at = 0;
      for (int i = 0; i < 3; ++i) {
        const int c = static_cast<int>(el(ids, i)), f = el(fs, i);
        const bool on_grid = dom.get_grid()->on_boundary(c, f);
        const int k = el(q->n_pts_per_facet, i);
        const auto want = facet_rule<D>(dom, c, f, n, on_grid != interior, !interior);
        const bool ok = matches<D - 1>(interior && on_grid ? Nodes<D - 1>() : want, q->points, q->weights, nullptr, at, k);
        if (interior) qv_check(ok, "interior facets have the points of their part inside the domain");
        else if (on_grid) qv_check(ok, "facets of the boundary of the grid have the points of their part inside or on the domain");
        else qv_check(ok, "facets inside the grid have, on the exterior, the points of the unfitted boundary");
        at += k;
      }
      qv_check(at == static_cast<int>(q->points.size()) && q->points.size() == q->weights.size(), "the numbers of points add up to the points and weights of facets");
    }
  }
}
// ------------------------------------------------------- unfitted boundary
template<int D> void boundary(int lo, int hi)
{
  const auto dom = with_facet<D>(lo, hi, true);
  const Ids ids{ 1 - w.cell, w.cell };
  w.n_pts = 2;
  const bool cut = el(w.state, w.cell) == und_part;
  // a full unfitted facet of a full cell may stand for points that are no boundary
  for (int flags = 0; flags < 4; ++flags) {
    const bool include = flags % 2 == 1, exclude = flags / 2 == 1;
    const auto q = create_unfitted_bound_quadrature<D>(dom, ids, w.n_pts, include, exclude);
    qv_check(q->cells == ids && q->n_pts_per_cell.size() == 2, "the cells of the boundary rule are those asked for");
    Nodes<D> want;
    if (cut) {
      Node<D> a{ Point<D>(0.25), 0.0, Point<D>(0.0) };
      // grad = (3, -4): the normal and measure in the unit cell
      const real n0 = 0.6 * w.h[0], n1 = -0.8 * w.h[1], len = std::sqrt(n0 * n0 + n1 * n1);
      a.n(0) = n0 / len;
      a.n(1) = n1 / len;
      a.w = 0.5 * len;// the integral scales its weights by the volume of the cell
      want.push_back(a);
      for (int k = 0; k < w.n_nodes; ++k) {
        if (el(w.kind, k) != tangent) continue;
        const int t = w.f / 2 == 0 ? 1 : 0;
        Node<D> b{ Point<D>(0.5), 0.125 * (k + 1) * el(w.h, t), Point<D>(0.0) };
        b.x(w.f / 2) = w.f % 2;
        b.x(t) = k == 0 ? 0.25 : 0.75;
        b.n(t) = 1.0;
        want.push_back(b);
      }
    }
    for (int f = 0; f < 2 * D; ++f) {
      if (!include || (exclude && dom.get_grid()->on_boundary(w.cell, f))) continue;
      if (!dom.has_unfitted_boundary(w.cell, f)) continue;
      for (const auto &r : facet_rule<D>(dom, w.cell, f, w.n_pts, false, true)) {
        Node<D> b{ lift<D>(r.x, f / 2, f % 2), r.w, Point<D>(0.0) };
        b.n(f / 2) = f % 2 == 0 ? -1.0 : 1.0;
        want.push_back(b);
      }
    }
    qv_check(q->n_pts_per_cell[0] == 0, "cells without unfitted boundary have no boundary points");
    const bool ok = matches<D>(want, q->points, q->weights, &q->normals, 0, q->n_pts_per_cell[1]);
    if (include && exclude) qv_check(ok, "boundary rule with facets, without those of the boundary of the grid");
    else if (include) qv_check(ok, "boundary rule with facets");
    else qv_check(ok, "boundary rule without facets");
    qv_check(q->n_pts_per_cell[1] == static_cast<int>(q->points.size()) && q->points.size() == q->weights.size() && q->points.size() == q->normals.size(), "the numbers of points add up to the points, weights and normals");
  }
}
}// namespace
HARNESS(n_cells2) { cells<2>(); }
HARNESS(n_cells3) { cells<3>(); }
HARNESS(n_facets2a) { facets<2>(0, 1); }
HARNESS(n_facets2b) { facets<2>(2, 3); }
HARNESS(n_facets3a) { facets<3>(0, 2); }
HARNESS(n_facets3b) { facets<3>(3, 5); }
HARNESS(n_boundary2a) { boundary<2>(0, 1); }
HARNESS(n_boundary2b) { boundary<2>(2, 3); }
HARNESS(n_boundary3a) { boundary<3>(0, 2); }
HARNESS(n_boundary3b) { boundary<3>(3, 5); }
// ------------------------------- any cell, node, weight and gradient, one node
namespace {
struct One
{
  std::array<real, 3> o{}, h{}, x{}, g{};
  real weight = 0.0;
  bool surface_asked = false;
};
One one;
template<int D> struct AnyPhi : ImplicitFunc<D>
{
  using I = algoim::Interval<D>;
  real operator()(const Point<D> &) const override { return -1.0; }
  I operator()(const Point<D, I> &) const override { return I(0.0, algoim::uvector<real, D>(0.0), 1.0); }
  Vector<real, D> grad(const Point<D> &) const override
  {
    Vector<real, D> r(0.0);
    for (int d = 0; d < D; ++d) r(d) = el(one.g, d);
    return r;
  }
  Vector<I, D> grad(const Point<D, I> &) const override { return Vector<I, D>(); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
};
template<int D> void any_prepare(int, int, const algoim::uvector<real, D> &, const algoim::uvector<real, D> &)
{
  using H = algoim::QuadHook<D>;
  H::nodes.assign(1, algoim::uvector<real, D>(0.5));
  H::weights.assign(1, 0.375);
}
template<int D> void any_integral(bool surface, const algoim::uvector<bool, D> &, const algoim::PsiCode<D> &, const algoim::uvector<real, D> &, const algoim::uvector<real, D> &, int)
{
  using H = algoim::QuadHook<D>;
  one.surface_asked = surface;
  algoim::uvector<real, D> x;
  for (int d = 0; d < D; ++d) x(d) = el(one.x, d);
  H::nodes.assign(1, x);
  H::weights.assign(1, one.weight);
}
template<int D> Dom<D> any_domain()
{
  algoim::QuadHook<D>::prepare = any_prepare<D>;
  algoim::QuadHook<D>::integral = any_integral<D>;
  std::array<std::vector<real>, D> b;
  for (int d = 0; d < D; ++d) {
    el(one.o, d) = qv_real(qv::idx("o", d));
    el(one.h, d) = qv_real(qv::idx("h", d));
    el(one.x, d) = qv_real(qv::idx("x", d));
    el(one.g, d) = qv_real(qv::idx("g", d));
    qv_assume(el(one.h, d) > 0.001 && el(one.h, d) < 1000.0);
    qv_assume(el(one.o, d) > -1000.0 && el(one.o, d) < 1000.0);
    qv_assume(el(one.x, d) >= 0.0 && el(one.x, d) <= 1.0);
    qv_assume(el(one.g, d) > -1000.0 && el(one.g, d) < 1000.0);
    el(b, d).push_back(el(one.o, d));
    el(b, d).push_back(el(one.o, d) + el(one.h, d));
  }
  one.weight = qv_real("w");
  qv_assume(one.weight > 0.0 && one.weight < 10.0);
  return Dom<D>(std::make_shared<AnyPhi<D>>(), std::make_shared<const CartGridTP<D>>(b));
}
template<int D> void any_point()
{
  const auto dom = any_domain<D>();
  const auto q = create_quadrature<D>(dom, { 0 }, 2);
  qv_check(q->points.size() == 1 && q->weights.size() == 1, "one node in a cut cell gives one point");
  for (int d = 0; d < D; ++d) qv_check_eq(q->points[0](d), el(one.x, d), "points of cut cells are mapped to the unit cell");
  qv_check_eq(q->weights[0], one.weight, "weights of cut cells are relative to the volume of the cell");
}
template<int D> void any_facet_point()
{
  const auto dom = any_domain<D>();
  const int f = qv::each("facet", 0, 2 * D - 1);
  qv_check(dom.is_cut_facet(0, f), "a facet with a part inside is cut");
  const auto q = create_facets_quadrature_exterior_integral<D>(dom, { 0 }, { f }, 2);
  qv_check(q->points.size() == 1 && q->weights.size() == 1, "one node in a cut facet gives one point");
  int k = 0;
  for (int d = 0; d < D; ++d)
    if (d != f / 2) {
      qv_check_eq(q->points[0](k), el(one.x, d), "points of cut facets are mapped to the unit facet");
      ++k;
    }
  qv_check_eq(q->weights[0], one.weight, "weights of cut facets are relative to the measure of the facet");
}
template<int D> void any_boundary_point()
{
  const auto dom = any_domain<D>();
  real g2 = 0.0, s2 = 0.0;
  for (int d = 0; d < D; ++d) {
    const real s = el(one.g, d) * el(one.h, d);
    g2 = g2 + el(one.g, d) * el(one.g, d);
    s2 = s2 + s * s;
  }
  qv_assume(g2 > 1e-6);
  const auto q = create_unfitted_bound_quadrature<D>(dom, { 0 }, 2, true, false);
  qv_check(one.surface_asked, "boundary points are those of the surface");
  qv_check(q->points.size() == 1 && q->weights.size() == 1 && q->normals.size() == 1, "one node of the boundary in a cut cell gives one point");
  real n2 = 0.0, dot = 0.0;
  const auto &n = q->normals[0];
  for (int d = 0; d < D; ++d) {
    qv_check_eq(q->points[0](d), el(one.x, d), "points of the boundary are mapped to the unit cell");
    n2 = n2 + n(d) * n(d);
    dot = dot + n(d) * el(one.g, d) * el(one.h, d);
  }
  qv_check_eq(n2, 1.0, "normals have unit length");
  for (int d = 1; d < D; ++d)
    qv_check_eq(n(d) * el(one.g, 0) * el(one.h, 0), n(0) * el(one.g, d) * el(one.h, d), "normals have the direction of the gradient in the unit cell");
  qv_check_eq(dot * dot, s2, "normals point out of the domain");
  qv_check(dot > 0.0, "normals point out of the domain");
  // measure in the unit cell
  qv_check_eq(q->weights[0] * q->weights[0] * g2, one.weight * one.weight * s2, "weights of the boundary are measures in the unit cell");
  qv_check(q->weights[0] > 0.0, "weights of the boundary are positive");
}
}// namespace
HARNESS(any_point2) { any_point<2>(); }
HARNESS(any_point3) { any_point<3>(); }
HARNESS(any_facet_point2) { any_facet_point<2>(); }
HARNESS(any_facet_point3) { any_facet_point<3>(); }
HARNESS(any_boundary_point2) { any_boundary_point<2>(); }
HARNESS(any_boundary_point3) { any_boundary_point<3>(); }
// -------------------- Bezier functions, a + b x + c y (+ d z), any coefficients
namespace {
template<int D> using Coefs = std::array<real, D + 1>;
template<int D> real value(const Coefs<D> &c, const Point<D> &x)
{
  real v = c[0];
  for (int d = 0; d < D; ++d) v = v + c[static_cast<std::size_t>(d) + 1] * x(d);
  return v;
}
// algoim orders the directions of polynomials the other way round
template<int D> void bezier_nodes(const std::vector<Point<D>> &pts, const std::vector<real> &ws)
{
  using H = algoim::QuadHook<D>;
  H::prepare = nullptr;
  H::nodes.clear();
  H::weights = ws;
  for (const auto &p : pts) {
    algoim::uvector<real, D> x;
    for (int d = 0; d < D; ++d) x(D - 1 - d) = p(d);
    H::nodes.push_back(x);
  }
}
template<int D> Point<D> pt(real a, real b, real c)
{
  Point<D> p(0.0);
  p(0) = a;
  if constexpr (D > 1) p(1) = b;
  if constexpr (D > 2) p(2) = c;
  return p;
}
template<int D> void bezier(const Coefs<D> &c)
{
  TensorSizeTP<D> order(2);
  std::vector<real> coefs;
  for (int f = 0; f < (1 << D); ++f) {
    Point<D> x(0.0);
    for (int d = 0; d < D; ++d) x(d) = (f >> d) & 1;
    coefs.push_back(value<D>(c, x));
  }
  const std::vector<Point<D>> pts{ pt<D>(0.25, 0.625, 0.125), pt<D>(0.875, 0.375, 0.75) };
  const std::vector<Point<D - 1>> fpts{ pt<D - 1>(0.25, 0.625, 0.0), pt<D - 1>(0.75, 0.125, 0.0) };
  const std::vector<real> ws{ 0.25, 0.75 };
  bezier_nodes<D>(pts, ws);
  bezier_nodes<D - 1>(fpts, ws);
  // cells [1,3] x [0,1/2] (x [-1,1]) after a small one
  std::array<std::vector<real>, D> b;
  b[0] = { 0.5, 1.0, 3.0 };
  b[1] = { 0.0, 0.5 };
  if constexpr (D == 3) b[2] = { -1.0, 1.0 };
  const auto at = [&](const Point<D> &p) {
    Point<D> x(0.0);
    x(0) = 1.0 + 2.0 * p(0);
    x(1) = 0.5 * p(1);
    if constexpr (D == 3) x(2) = 2.0 * p(2) - 1.0;
    return value<D>(c, x);
  };
  for (const auto &p : pts) {
    const real v = at(p);
    qv_assume(v > 0.01 || v < -0.01);
  }
  for (const auto &p : fpts)
    for (int f = 0; f < 2 * D; ++f) {
      const real v = at(lift<D>(p, f / 2, f % 2));
      qv_assume(v > 0.01 || v < -0.01);
    }
  const auto poly = std::make_shared<const BezierTP<D>>(order, coefs);
  const auto grid = std::make_shared<const CartGridTP<D>>(b);
  const Dom<D> dom(poly, grid);
  if (!dom.is_cut_cell(1)) return;
  const auto q = create_quadrature<D>(dom, { 1 }, 3);
  std::size_t n = 0;
  for (std::size_t i = 0; i < 2; ++i) {
    if (!(at(pts[i]) < 0.0)) continue;
    bool ok = n < q->points.size() && n < q->weights.size() && q->weights[n] == ws[i];
    if (ok)
      for (int d = 0; d < D; ++d) ok = ok && q->points[n](d) == pts[i](d);
    qv_check(ok, "cut cells of polynomials have the points where the polynomial is negative");
    ++n;
  }
  qv_check(n == q->points.size() && n == q->weights.size() && q->n_pts_per_cell[0] == static_cast<int>(n), "cut cells of polynomials have no other points");
  const auto u = create_unfitted_bound_quadrature<D>(dom, { 1 }, 3, true, false);
  qv_check(u->points.size() == 2 && u->weights.size() == 2 && u->normals.size() == 2 && u->n_pts_per_cell[0] == 2, "all points of the boundary of polynomials are taken");
  std::array<real, 3> g{ 2.0 * c[1], 0.5 * c[2], 0.0 };
  if constexpr (D == 3) g[2] = 2.0 * c[3];
  real g2 = 0.0;
  for (int d = 0; d < D; ++d) g2 = g2 + el(g, d) * el(g, d);
  for (std::size_t i = 0; i < 2; ++i) {
    real n2 = 0.0, dot = 0.0;
    bool ok = u->weights[i] == ws[i];
    for (int d = 0; d < D; ++d) {
      ok = ok && u->points[i](d) == pts[i](d);
      n2 = n2 + u->normals[i](d) * u->normals[i](d);
      dot = dot + u->normals[i](d) * el(g, d);
    }
    qv_check(ok, "boundary points of polynomials are those of algoim");
    qv_check_eq(n2, 1.0, "normals of polynomials have unit length");
    qv_check_eq(dot * dot, g2, "normals of polynomials are along the gradient in the unit cell");
    qv_check(dot > 0.0, "normals of polynomials point out of the domain");
  }
  for (int f = 0; f < 2 * D; ++f) {
    if (!dom.is_cut_facet(1, f)) continue;
    const auto r = create_facets_quadrature_exterior_integral<D>(dom, { 1 }, { f }, 3);
    const auto s = create_facets_quadrature_interior_integral<D>(dom, { 1 }, { f }, 3);
    const auto &fq = dom.get_grid()->on_boundary(1, f) ? *r : *s;
    const auto &no = dom.get_grid()->on_boundary(1, f) ? *s : *r;
    qv_check(no.points.empty() && no.n_pts_per_facet[0] == 0, "facets of polynomials without unfitted boundary count on one side only");
    n = 0;
    for (std::size_t i = 0; i < 2; ++i) {
      if (!(at(lift<D>(fpts[i], f / 2, f % 2)) < 0.0)) continue;
      bool ok = n < fq.points.size() && n < fq.weights.size() && fq.weights[n] == ws[i];
      if (ok)
        for (int d = 0; d < D - 1; ++d) ok = ok && fq.points[n](d) == fpts[i](d);
      qv_check(ok, "cut facets of polynomials have the points where the polynomial is negative");
      ++n;
    }
    qv_check(n == fq.points.size() && fq.n_pts_per_facet[0] == static_cast<int>(n), "cut facets of polynomials have no other points");
  }
}
}// namespace
HARNESS(bezier2)
{
  bezier<2>({ qv_real("a"), qv_real("b"), qv_real("c") });
}
HARNESS(n_bezier3)
{
  bezier<3>({ -0.25 * qv::each("a", 1, 4), 0.25 * qv::each("b", -1, 2), 0.5 * qv::each("c", -2, 3), 0.5 * qv::each("d", -1, 2) });
}
