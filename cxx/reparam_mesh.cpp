// Contracts of the meshes of reparameterizations: cells, wires, merging,
// scaling and orientation.
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/bbox.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/reparam_mesh.hpp>
#include <qugar/tolerance.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <memory>
#include <set>
#include <vector>
#include <algoim/bernstein.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
template<typename T> auto &el(T &v, int i) { return v[static_cast<std::size_t>(i)]; }
using Ids = std::vector<std::size_t>;
int ipow(int a, int b) { return b == 0 ? 1 : a * ipow(a, b - 1); }
template<int D, int R> struct Mesh : ImplReparamMesh<D, R>
{
  explicit Mesh(int order) : ImplReparamMesh<D, R>(order) {}
  Ids edge(int cell, int e) const { return this->get_edge_points(cell, e); }
  void add_wire(const Ids &w) { this->wires_connectivity_.insert(this->wires_connectivity_.end(), w.begin(), w.end()); }
};
// node i of n in the unit interval
real node(int i, int n)
{
  return ReparamMesh<2, 2>::use_Chebyshev(n) ? algoim::bernstein::modifiedChebyshevNode(i, n) : static_cast<real>(i) / static_cast<real>(n - 1);
}
template<int D> std::array<int, 3> tensor(int k, int n)
{
  std::array<int, 3> t{ 0, 0, 0 };
  for (int d = 0; d < D; ++d) {
    el(t, d) = k % n;
    k /= n;
  }
  return t;
}
template<int D> BoundBox<D> box(const char *name)
{
  Point<D> a(0.0), b(0.0);
  for (int d = 0; d < D; ++d) {
    a(d) = qv_real(qv::idx(name, d));
    const real l = qv_real(qv::idx2(name, d, 1));
    qv_assume(l > 0.001 && l < 1000.0 && a(d) > -1000.0 && a(d) < 1000.0);
    b(d) = a(d) + l;
  }
  return BoundBox<D>(a, b);
}
constexpr int n_edges(int d) { return d == 2 ? 4 : 12; }
// which points of a cell of order n an edge has: a value per direction, -1 if it runs along it
template<int D> std::array<int, 3> line_of(const Ids &pts, int first, int n)
{
  std::array<int, 3> r{ 0, 0, 0 };
  const auto a = tensor<D>(static_cast<int>(pts.front()) - first, n), b = tensor<D>(static_cast<int>(pts.back()) - first, n);
  for (int d = 0; d < D; ++d) el(r, d) = el(a, d) == el(b, d) ? el(a, d) : -1;
  return r;
}
// the edge has all points of the cell on a line, from the smaller end to the larger
template<int D> bool is_line(const Ids &pts, int first, int n, const std::array<int, 3> &l)
{
  int free = -1, k = 0;
  for (int d = 0; d < D; ++d)
    if (el(l, d) < 0) {
      free = d;
      ++k;
    } else if (el(l, d) != 0 && el(l, d) != n - 1) return false;
  if (k != 1 || static_cast<int>(pts.size()) != n) return false;
  for (int i = 0; i < n; ++i) {
    const auto t = tensor<D>(static_cast<int>(el(pts, i)) - first, n);
    for (int d = 0; d < D; ++d)
      if (el(t, d) != (d == free ? i : el(l, d))) return false;
  }
  return true;
}
// cells of any box: points, connectivity, wires
template<int D> void full_cells(int lo, int hi)
{
  const int n = qv::each("order", lo, hi);
  const bool wires = qv_each("wires", 0, 1) == 1;
  const auto a = box<D>("a"), b = box<D>("b");
  Mesh<D, D> m(n);
  m.template add_full_cell<D>(a, wires);
  m.template add_full_cell<D>(b, wires);
  const int per = ipow(n, D);
  qv_check(m.get_order() == n && static_cast<int>(m.get_num_points_per_cell()) == per, "the points per cell are those of the order");
  qv_check(m.get_num_cells() == 2 && static_cast<int>(m.get_num_points()) == 2 * per, "a full cell adds its points");
  const auto &p = m.get_points();
  const auto &c = m.get_connectivity();
  qv_check(static_cast<int>(c.size()) == 2 * per, "a full cell adds its connectivity");
  for (int i = 0; i < 2 * per; ++i) {
    qv_check(static_cast<int>(el(c, i)) == i, "the points of full cells are new ones, first direction fastest");
    const auto &bx = i < per ? a : b;
    const auto t = tensor<D>(i % per, n);
    for (int d = 0; d < D; ++d)
      qv_check_eq(p[el(c, i)](d), bx.min(d) + (bx.max(d) - bx.min(d)) * node(el(t, d), n), "the points of full cells are a lattice of the box");
  }
  const auto &w = m.get_wires_connectivity();
  qv_check(static_cast<int>(w.size()) == (wires ? 2 * n_edges(D) * n : 0), "the wires of full cells are their edges");
  std::vector<std::array<int, 3>> seen;
  for (int e = 0; e < static_cast<int>(w.size()) / n; ++e) {
    const Ids pts(w.begin() + e * n, w.begin() + (e + 1) * n);
    const int first = e < n_edges(D) ? 0 : per;
    const auto l = line_of<D>(pts, first, n);
    qv_check(is_line<D>(pts, first, n, l), "a wire is an edge of the cell");
    if (e % n_edges(D) == 0) seen.clear();
    bool again = false;
    for (const auto &s : seen) again = again || s == l;
    qv_check(!again, "the wires of a cell are different edges");
    seen.push_back(l);
  }
}
}// namespace
HARNESS(n_full2) { full_cells<2>(2, 4); }
HARNESS(n_full3) { full_cells<3>(2, 3); }
HARNESS(n_full2_chebyshev) { full_cells<2>(7, 8); }
// ------------------------------------------------ adding points and cells
namespace {
template<int D, int R> void inserted()
{
  const int n = qv::each("order", 2, 3);
  Mesh<D, R> m(n);
  const int per = ipow(n, D);
  const int first = m.allocate_cells(1), second = m.allocate_cells(2);
  qv_check(first == 0 && second == 1 && m.get_num_cells() == 3, "allocated cells come after those there");
  // the points of the cells, the last cell first, backwards
  std::vector<Point<R>> want(static_cast<std::size_t>(3 * per));
  for (int c = 2; c >= 0; --c)
    for (int i = per - 1; i >= 0; --i) {
      Point<R> x(0.0);
      for (int d = 0; d < R; ++d) x(d) = c * 100 + i * 4 + d;
      el(want, c * per + i) = x;
      m.insert_cell_point(x, c, i);
    }
  const auto old = m.get_connectivity();
  m.reserve_cells(5);
  qv_check(m.get_connectivity() == old && static_cast<int>(m.get_num_points()) == 3 * per, "reserving changes nothing");
  for (int k = 0; k < 3 * per; ++k) {
    const auto &x = m.get_points()[el(m.get_connectivity(), k)];
    bool same = true;
    for (int d = 0; d < R; ++d) same = same && x(d) == el(want, k)(d);
    qv_check(same, "a point inserted is that of its cell");
  }
  // permuting the directions of a cell changes that cell only
  const int c = qv::each("cell", 0, 2);
  m.permute_cell_directions(static_cast<std::size_t>(c));
  for (int k = 0; k < 3 * per; ++k) {
    int from = k;
    if (k / per == c) {
      auto t = tensor<D>(k % per, n);
      if constexpr (D == 1) t[0] = n - 1 - t[0];
      else std::swap(t[0], t[1]);
      from = c * per;
      int st = 1;
      for (int d = 0; d < D; ++d) {
        from += st * el(t, d);
        st *= n;
      }
    }
    qv_check(el(m.get_connectivity(), k) == el(old, from), "permuting a cell swaps its first two directions");
  }
  // a mesh merged with another
  Mesh<D, R> o(n);
  o.allocate_cells(1);
  for (int i = 0; i < per; ++i) o.insert_cell_point(Point<R>(-1.0 - i), 0, i);
  o.add_wire(Ids(static_cast<std::size_t>(n), 1));
  m.add_wire(Ids(static_cast<std::size_t>(n), 0));
  const auto before = m.get_connectivity();
  m.merge(o);
  qv_check(m.get_num_cells() == 4 && static_cast<int>(m.get_num_points()) == 4 * per && static_cast<int>(m.get_wires_connectivity().size()) == 2 * n, "a merged mesh has the cells of both");
  for (int k = 0; k < 4 * per; ++k)
    qv_check(static_cast<int>(el(m.get_connectivity(), k)) == (k < 3 * per ? static_cast<int>(el(before, k)) : k), "a merged mesh has the connectivity of both");
  for (int i = 0; i < per; ++i) qv_check(el(m.get_points(), 3 * per + i)(R - 1) == -1.0 - i, "a merged mesh has the points of both");
  for (int i = 0; i < 2 * n; ++i) qv_check(static_cast<int>(el(m.get_wires_connectivity(), i)) == (i < n ? 0 : 3 * per + 1), "a merged mesh has the wires of both");
}
template<int R> void scaled()
{
  const auto a = box<R>("a"), b = box<R>("b");
  Mesh<R, R> m(2);
  Point<R> x(0.0), y(0.0);
  for (int d = 0; d < R; ++d) {
    const real s = qv_real(qv::idx("s", d)), t = qv_real(qv::idx("t", d));
    qv_assume(s > -10.0 && s < 10.0 && t > -10.0 && t < 10.0);
    x(d) = a.min(d) + s * a.length(d);
    y(d) = a.min(d) + t * a.length(d);
  }
  m.allocate_cells(1);
  m.insert_cell_point(x, 0, 0);
  m.insert_cell_point(y, 0, 1);
  const bool all = qv_each("all", 0, 1) == 1;
  if (all) m.scale_points(a, b);
  else m.scale_points(std::vector<int>{ 1 }, a, b);
  for (int d = 0; d < R; ++d) {
    const real s = qv_real(qv::idx("s", d)), t = qv_real(qv::idx("t", d));
    qv_check_eq(m.get_points()[0](d), all ? b.min(d) + s * b.length(d) : x(d), "points are scaled from one box to the other, if listed");
    qv_check_eq(m.get_points()[1](d), b.min(d) + t * b.length(d), "points are scaled from one box to the other");
  }
}
}// namespace
HARNESS(n_inserted12) { inserted<1, 2>(); }
HARNESS(n_inserted22) { inserted<2, 2>(); }
HARNESS(n_inserted23) { inserted<2, 3>(); }
HARNESS(n_inserted33) { inserted<3, 3>(); }
HARNESS(scaled2) { scaled<2>(); }
HARNESS(scaled3) { scaled<3>(); }
// --------------------------------------------------------- merging points
namespace {
bool close(real a, real b) { return a - b < 1e-9 && b - a < 1e-9; }
template<int R> bool same_point(const Point<R> &a, const Point<R> &b)
{
  bool ok = true;
  for (int d = 0; d < R; ++d) ok = ok && close(a(d), b(d));
  return ok;
}
// some of the cells of a grid, with wires: their points merged
template<int D> void merged(const std::array<int, D> &size)
{
  const int n = qv::each("order", 2, 3);
  std::array<std::vector<real>, D> b;
  int total = 1;
  for (int d = 0; d < D; ++d) {
    for (int i = 0; i <= el(size, d); ++i) el(b, d).push_back(0.5 * i);
    total *= el(size, d);
  }
  const CartGridTP<D> grid(b);
  std::vector<std::int64_t> ids;
  for (int c = total - 1; c >= 0; --c)
    if (qv_each(qv::idx("in", c), 0, 1) == 1) ids.push_back(c);
  const bool wires = qv_each("wires", 0, 1) == 1;
  Mesh<D, D> m(n);
  m.template add_full_cells<D>(grid, ids, wires);
  const int per = ipow(n, D);
  qv_check(m.get_num_cells() == ids.size(), "the full cells are those asked for");
  std::vector<Point<D>> want;
  for (const auto id : ids) {
    const auto dom = grid.get_cell_domain(id);
    for (int i = 0; i < per; ++i) {
      const auto t = tensor<D>(i, n);
      Point<D> x(0.0);
      for (int d = 0; d < D; ++d) x(d) = dom.min(d) + dom.length(d) * node(el(t, d), n);
      want.push_back(x);
    }
  }
  const auto old_points = m.get_points();
  const auto old_wires = m.get_wires_connectivity();
  qv_check(old_wires.size() == (wires ? ids.size() * static_cast<std::size_t>(n_edges(D) * n) : 0), "the wires of all full cells are added");
  m.merge_coincident_points(Tolerance(1e-6));
  const auto &p = m.get_points();
  const auto &c = m.get_connectivity();
  qv_check(c.size() == want.size(), "merging keeps the cells");
  bool ok = true;
  for (std::size_t i = 0; i < c.size(); ++i) ok = ok && c[i] < p.size() && same_point<D>(p[c[i]], want[i]);
  qv_check(ok, "merging moves no point of a cell");
  ok = true;
  for (std::size_t i = 0; i < p.size(); ++i)
    for (std::size_t j = 0; j < i; ++j) ok = ok && !same_point<D>(p[i], p[j]);
  qv_check(ok, "no two points are the same after merging");
  // wires: each one there was is there, once, and nothing else
  const auto &w = m.get_wires_connectivity();
  const auto edge = [n](const Ids &v, const std::vector<Point<D>> &q, int e) {
    std::vector<Point<D>> r;
    for (int i = 0; i < n; ++i) r.push_back(q[el(v, e * n + i)]);
    return r;
  };
  const auto equal = [](const std::vector<Point<D>> &x, const std::vector<Point<D>> &y) {
    bool f = true, r = true;
    for (std::size_t i = 0; i < x.size(); ++i) {
      f = f && same_point<D>(x[i], y[i]);
      r = r && same_point<D>(x[i], y[y.size() - 1 - i]);
    }
    return f || r;
  };
  const int nw = static_cast<int>(w.size()) / n, no = static_cast<int>(old_wires.size()) / n;
  qv_check(static_cast<int>(w.size()) % n == 0, "wires are whole after merging");
  bool all = true, once = true, only = true;
  for (int i = 0; i < no; ++i) {
    int k = 0;
    for (int j = 0; j < nw; ++j) k += equal(edge(old_wires, old_points, i), edge(w, p, j)) ? 1 : 0;
    all = all && k > 0;
    once = once && k < 2;
  }
  for (int j = 0; j < nw; ++j) {
    bool some = false;
    for (int i = 0; i < no && !some; ++i) some = equal(edge(old_wires, old_points, i), edge(w, p, j));
    only = only && some;
  }
  qv_check(all, "no wire is lost when merging");
  qv_check(once, "no wire is repeated after merging");
  qv_check(only, "no wire is added when merging");
}
}// namespace
HARNESS(n_merged2) { merged<2>({ 2, 2 }); }
HARNESS(n_merged3) { merged<3>({ 2, 1, 1 }); }
// ------------------------------------------------------------ orientation
namespace {
// corner (or mid-side) s of direction d: weights of the points in the derivative
// of the cell map at its middle, and in the middle itself
real diff(int i, int n) { return i == 0 ? -1.0 : i == n - 1 ? 1.0 : 0.0; }
real avg(int i, int n) { return n == 2 ? 0.5 : i == 1 ? 1.0 : 0.0; }
template<int D, int R> Vector<real, R> tangent(const ReparamMesh<D, R> &m, int cell, int dir)
{
  const int n = m.get_order(), per = ipow(n, D);
  Vector<real, R> v(0.0);
  for (int i = 0; i < per; ++i) {
    const auto t = tensor<D>(i, n);
    real s = 1.0;
    for (int d = 0; d < D; ++d) s *= d == dir ? diff(el(t, d), n) : avg(el(t, d), n);
    if (s != 0.0)
      for (int r = 0; r < R; ++r) v(r) += s * m.get_points()[el(m.get_connectivity(), cell * per + i)](r);
  }
  return v;
}
real det(const Vector<real, 2> &a, const Vector<real, 2> &b) { return a(0) * b(1) - a(1) * b(0); }
real det(const Vector<real, 3> &a, const Vector<real, 3> &b, const Vector<real, 3> &c)
{
  return a(0) * (b(1) * c(2) - b(2) * c(1)) - a(1) * (b(0) * c(2) - b(2) * c(0)) + a(2) * (b(0) * c(1) - b(1) * c(0));
}
template<int D, int R> void any_cells(Mesh<D, R> &m, int cells, int free_dirs)
{
  const int per = ipow(m.get_order(), D);
  m.allocate_cells(static_cast<std::size_t>(cells));
  for (int c = 0; c < cells; ++c)
    for (int i = 0; i < per; ++i) {
      const auto t = tensor<D>(i, m.get_order());
      Point<R> x(0.0);
      for (int r = 0; r < R; ++r) {
        if (r < free_dirs) {
          x(r) = qv_real(qv::idx2(qv::idx("x", c), i, r));
          qv_assume(x(r) > -10.0 && x(r) < 10.0);
        } else x(r) = el(t, r) + 0.25 * (i % 3);
      }
      m.insert_cell_point(x, c, i);
    }
}
// the cell has the points it had, in the same order or with two directions swapped (1D: reversed)
template<int D> bool kept_or_swapped(const Ids &now, const Ids &old, int cell, int n, bool swapped)
{
  const int per = ipow(n, D);
  bool ok = true;
  for (int i = 0; i < per; ++i) {
    auto t = tensor<D>(i, n);
    if (swapped) {
      if constexpr (D == 1) t[0] = n - 1 - t[0];
      else std::swap(t[0], t[1]);
    }
    int from = 0, st = 1;
    for (int d = 0; d < D; ++d) {
      from += st * el(t, d);
      st *= n;
    }
    ok = ok && el(now, cell * per + i) == el(old, cell * per + from);
  }
  return ok;
}
template<int D> void oriented(int n, int free_dirs)
{
  Mesh<D, D> m(n);
  any_cells<D, D>(m, 2, free_dirs);
  const auto old = m.get_connectivity();
  const int c = qv::each("cell", 0, 2);
  m.add_wire(Ids(static_cast<std::size_t>(n), 1));
  if (c == 2) m.orient_cells_positively();
  else m.orient_cells_positively(std::vector<int>{ c });
  const auto &now = m.get_connectivity();
  for (int k = 0; k < 2; ++k) {
    const bool same = kept_or_swapped<D>(now, old, k, n, false);
    qv_check(same || (c != 1 - k && kept_or_swapped<D>(now, old, k, n, true)), "orienting keeps or swaps the directions of the cells listed");
    if (c == 1 - k) continue;
    real j = 0.0;
    if constexpr (D == 2) j = det(tangent<2, 2>(m, k, 0), tangent<2, 2>(m, k, 1));
    else j = det(tangent<3, 3>(m, k, 0), tangent<3, 3>(m, k, 1), tangent<3, 3>(m, k, 2));
    qv_check(j >= 0.0, "oriented cells have a positive determinant in their middle");
  }
  qv_check(m.get_wires_connectivity() == Ids(static_cast<std::size_t>(n), 1), "orienting changes no wire");
}
template<int R> struct Field : ImplicitFunc<R>
{
  using I = algoim::Interval<R>;
  Vector<real, R> a, b;// gradient: a x + b
  real operator()(const Point<R> &x) const override
  {
    real v = 0.0;
    for (int d = 0; d < R; ++d) v += 0.5 * a(d) * x(d) * x(d) + b(d) * x(d);
    return v;
  }
  I operator()(const Point<R, I> &) const override { return I(0.0); }
  Vector<real, R> grad(const Point<R> &x) const override
  {
    Vector<real, R> g(0.0);
    for (int d = 0; d < R; ++d) g(d) = a(d) * x(d) + b(d);
    return g;
  }
  Vector<I, R> grad(const Point<R, I> &) const override { return Vector<I, R>(); }
  Vector<real, R *(R + 1) / 2> hessian(const Point<R> &) const override { return Vector<real, R *(R + 1) / 2>(0.0); }
};
template<int D> Vector<real, D + 1> normal_of(const ReparamMesh<D, D + 1> &m, int k)
{
  Vector<real, D + 1> v(0.0);
  if constexpr (D == 1) {
    const auto t = tangent<1, 2>(m, k, 0);
    v(0) = t(1);
    v(1) = -t(0);
  } else {
    const auto t = tangent<2, 3>(m, k, 0), s = tangent<2, 3>(m, k, 1);
    for (int d = 0; d < 3; ++d) v(d) = t((d + 1) % 3) * s((d + 2) % 3) - t((d + 2) % 3) * s((d + 1) % 3);
  }
  return v;
}
template<int D> void oriented_levelset(int n, int free_dirs)
{
  constexpr int R = D + 1;
  Mesh<D, R> m(n);
  any_cells<D, R>(m, 2, free_dirs);
  const auto old = m.get_connectivity();
  Field<R> f;
  for (int d = 0; d < R; ++d) {
    f.a(d) = d == 0 ? 2.0 : -1.0;
    f.b(d) = qv_real(qv::idx("b", d));
    qv_assume(f.b(d) > -10.0 && f.b(d) < 10.0);
  }
  const std::vector<std::reference_wrapper<const ImplicitFunc<R>>> fs{ f };
  const int c = qv::each("cell", 0, 2);
  std::vector<Vector<real, R>> g, v;
  for (int k = 0; k < 2; ++k) {
    Point<R> mid(0.0);
    for (int i = 0; i < ipow(n, D); ++i) {
      const auto t = tensor<D>(i, n);
      real s = 1.0;
      for (int d = 0; d < D; ++d) s *= avg(el(t, d), n);
      if (s != 0.0) mid += s * m.get_points()[el(old, k * ipow(n, D) + i)];
    }
    g.push_back(f.grad(mid));
    v.push_back(normal_of<D>(m, k));
    if (c == 1 - k) continue;
    qv_assume(dot(g.back(), g.back()) > 0.001 && dot(v.back(), v.back()) > 0.001);
  }
  if (c == 2) m.orient_levelset_cells_positively(fs);
  else m.orient_levelset_cells_positively(fs, std::vector<int>{ c });
  for (int k = 0; k < 2; ++k) {
    const bool same = kept_or_swapped<D>(m.get_connectivity(), old, k, n, false);
    qv_check(same || (c != 1 - k && kept_or_swapped<D>(m.get_connectivity(), old, k, n, true)), "orienting keeps or swaps the directions of the cells listed");
    if (c == 1 - k) continue;
    qv_check(dot(normal_of<D>(m, k), el(g, k)) >= 0.0, "normals of oriented cells of the boundary go along the gradient");
  }
}
template<int D> void oriented_facet(int n, int free_dirs)
{
  constexpr int R = D + 1;
  Mesh<D, R> m(n);
  any_cells<D, R>(m, 2, free_dirs);
  const auto old = m.get_connectivity();
  const int c = qv::each("cell", 0, 2), f = qv::each("facet", 0, 2 * R - 1);
  for (int k = 0; k < 2; ++k)
    if (c != 1 - k) {
      const auto v = normal_of<D>(m, k);
      qv_assume(dot(v, v) > 0.001);
    }
  if (c == 2) m.orient_facet_cells_positively(f);
  else m.orient_facet_cells_positively(f, std::vector<int>{ c });
  for (int k = 0; k < 2; ++k) {
    const bool same = kept_or_swapped<D>(m.get_connectivity(), old, k, n, false);
    qv_check(same || (c != 1 - k && kept_or_swapped<D>(m.get_connectivity(), old, k, n, true)), "orienting keeps or swaps the directions of the cells listed");
    if (c == 1 - k) continue;
    const real out = normal_of<D>(m, k)(f / 2);
    qv_check(f % 2 == 0 ? out <= 0.0 : out >= 0.0, "normals of oriented cells of a facet point outwards");
  }
}
}// namespace
HARNESS(oriented2) { oriented<2>(2, 2); }
HARNESS(oriented2_quadratic) { oriented<2>(3, 2); }
HARNESS(oriented3) { oriented<3>(2, 2); }
HARNESS(oriented_levelset2) { oriented_levelset<1>(2, 2); }
HARNESS(oriented_levelset2_quadratic) { oriented_levelset<1>(3, 2); }
HARNESS(oriented_levelset3) { oriented_levelset<2>(2, 1); }
HARNESS(oriented_facet2) { oriented_facet<1>(2, 2); }
HARNESS(oriented_facet3) { oriented_facet<2>(2, 2); }
// ------------------------------------------------------------------ wires
namespace {
// zero at the points listed, one elsewhere
template<int R> struct Zeros : ImplicitFunc<R>
{
  using I = algoim::Interval<R>;
  std::vector<std::pair<Point<R>, bool>> at;
  real operator()(const Point<R> &x) const override
  {
    for (const auto &a : at) {
      bool same = true;
      for (int d = 0; d < R; ++d) same = same && a.first(d) == x(d);
      if (same) return a.second ? 0.0 : 1.0;
    }
    return 1.0;
  }
  I operator()(const Point<R, I> &) const override { return I(0.0); }
  Vector<real, R> grad(const Point<R> &) const override { return Vector<real, R>(0.0); }
  Vector<I, R> grad(const Point<R, I> &) const override { return Vector<I, R>(); }
  Vector<real, R *(R + 1) / 2> hessian(const Point<R> &) const override { return Vector<real, R *(R + 1) / 2>(0.0); }
};
// 0 or 1 when all points are on that side of the domain in that direction, else -1
template<int R> int side_of(const std::vector<Point<R>> &p, const BoundBox<R> &b, int d)
{
  bool lo = true, hi = true;
  for (const auto &x : p) {
    lo = lo && x(d) == b.min(d);
    hi = hi && x(d) == b.max(d);
  }
  return lo ? 0 : hi ? 1 : -1;
}
// one cell of order n over a lattice of the domain, with an edge anywhere
template<int D, int R> void wires(int n, int first, int second, int moving)
{
  constexpr int edges = n_edges(D);
  const BoundBox<R> dom(Point<R>(2.0), Point<R>(4.0));
  const int e0 = qv::each("edge", 0, moving);
  Mesh<D, R> m(n);
  const int per = ipow(n, D);
  m.allocate_cells(1);
  for (int i = 0; i < per; ++i) m.insert_cell_point(Point<R>(0.0), 0, i);
  // points of the edges before they are placed
  std::vector<Ids> all;
  for (int e = 0; e < edges; ++e) {
    all.push_back(m.edge(0, e));
    const auto l = line_of<D>(all.back(), 0, n);
    qv_check(is_line<D>(all.back(), 0, n, l), "an edge of a cell is a line of its points");
    for (int f = 0; f < e; ++f) qv_check(!(line_of<D>(el(all, f), 0, n) == l), "the edges of a cell are different");
  }
  // the cell: a lattice inside the domain, but for the ends of one edge
  Mesh<D, R> c(n);
  c.allocate_cells(1);
  Zeros<R> zero;
  std::vector<Point<R>> place(static_cast<std::size_t>(per), Point<R>(0.0));
  for (int i = 0; i < per; ++i) {
    const auto t = tensor<D>(i, n);
    for (int r = 0; r < R; ++r) el(place, i)(r) = 2.0 + (r < D ? el(t, r) * 2.0 / (n - 1) : 0.5 + 0.125 * (i % 3));
  }
  const auto &ids = el(all, e0);
  Point<R> a(0.0), b(0.0);
  for (int r = 0; r < R; ++r) {
    const int i = qv::each(qv::idx("a", r), 0, first), j = qv::each(qv::idx("b", r), 0, second);
    a(r) = r == 1 ? 4.0 - i : 2.0 + i;
    b(r) = r == 1 ? 4.0 - j : 2.0 + j;
  }
  for (int i = 0; i < n; ++i) place[el(ids, i)] = a + (b - a) * (static_cast<real>(i) / (n - 1));
  for (int i = 0; i < per; ++i) {
    bool on_edge = false;
    for (int k = 0; k < n; ++k) on_edge = on_edge || static_cast<int>(el(ids, k)) == i;
    bool at_zero = i % 3 != 0;
    if (on_edge) {
      at_zero = true;
      for (int k = 0; k < n; ++k)
        if (static_cast<int>(el(ids, k)) == i) at_zero = qv::each(qv::idx("zero", k), 0, 1) == 1;
    }
    zero.at.emplace_back(el(place, i), at_zero);
    c.insert_cell_point(el(place, i), 0, i);
  }
  const std::vector<std::reference_wrapper<const ImplicitFunc<R>>> fs{ zero };
  const auto conn = c.get_connectivity();
  c.generate_wirebasket(fs, dom, Tolerance(1e-8));
  qv_check(c.get_connectivity() == conn && static_cast<int>(c.get_num_points()) == per, "generating wires changes no cell");
  const auto &w = c.get_wires_connectivity();
  qv_check(static_cast<int>(w.size()) % n == 0, "wires are whole");
  const int nw = static_cast<int>(w.size()) / n;
  int wanted = 0;
  for (int e = 0; e < edges; ++e) {
    std::vector<Point<R>> p;
    bool on = true;
    for (const auto id : el(all, e)) {
      p.push_back(c.get_points()[conn[id]]);
      on = on && zero(p.back()) == 0.0;
    }
    bool point = true;
    for (const auto &x : p)
      for (int r = 0; r < R; ++r) point = point && x(r) == p.front()(r);
    int sides = 0;
    for (int r = 0; r < R; ++r) sides += side_of<R>(p, dom, r) >= 0 ? 1 : 0;
    const bool want = !point && (sides >= R - 1 || (sides >= 1 && on) || (R == 2 && on));
    bool there = false;
    for (int k = 0; k < nw; ++k) {
      bool same = true;
      for (int i = 0; i < n; ++i) same = same && el(w, k * n + i) == conn[el(el(all, e), i)];
      there = there || same;
    }
    qv_check(there || !want, "edges along the edges of the domain, or where the boundary meets its faces, are wires");
    qv_check(!there || want, "other edges are no wires");
    wanted += want ? 1 : 0;
  }
  qv_check(nw == wanted, "wires are added once");
}
}// namespace
HARNESS(n_wires22) { wires<2, 2>(2, 2, 2, 1); }
HARNESS(n_wires22_quadratic) { wires<2, 2>(3, 1, 1, 3); }
HARNESS(n_wires23) { wires<2, 3>(2, 1, 1, 1); }
HARNESS(n_wires33) { wires<3, 3>(2, 1, 1, 0); }
HARNESS(t_n_wires22) { wires<2, 2>(3, 2, 1, 3); }
HARNESS(t_n_wires23) { wires<2, 3>(2, 2, 1, 1); }
HARNESS(t_n_wires33) { wires<3, 3>(2, 2, 1, 0); }
