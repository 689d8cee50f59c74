// Contracts of unfitted domains: the partition of the cells in full, empty and
// cut ones, the tree that stores it, and the status of their facets. What
// algoim measures in a cell or facet is whatever the harness says (any value).
#include <cassert>
#include "qvc.h"
// LINK: *
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/impl_utils.hpp>
#include <qugar/unfitted_domain.hpp>
#include <qugar/unfitted_domain_binary_part.hpp>
#include <array>
#include <memory>
#include <vector>
#include <algoim/quadrature_general.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
using Ids = std::vector<std::int64_t>;
template<int D> using Grid = std::shared_ptr<const CartGridTP<D>>;
// unit cells: the breaks are the integers
template<int D> Grid<D> unit_grid(const std::array<int, D> &n)
{
  std::array<std::vector<real>, D> b;
  for (int d = 0; d < D; ++d)
    for (int i = 0; i <= n[static_cast<std::size_t>(d)]; ++i) b[static_cast<std::size_t>(d)].push_back(i);
  return std::make_shared<const CartGridTP<D>>(b);
}
// what the function does in every cell
enum State { neg, pos, und_none, und_all, und_part };
// what a quadrature point of a facet sees
enum Kind { inside, tangent, unf, ext };
struct World
{
  std::array<int, 3> n{ 1, 1, 1 };
  std::vector<int> state;
  bool coarse = false;// regions of several cells are never given a sign
  // facets of the only cell that is measured
  std::array<int, 6> n_nodes{ 1, 1, 1, 1, 1, 1 };
  std::array<std::array<int, 2>, 6> kind{};
  std::array<bool, 6> full_measure{ true, true, true, true, true, true };
  std::vector<std::array<int, 6>> asked;
};
World w;
int flat(const std::array<int, 3> &t) { return t[0] + w.n[0] * (t[1] + w.n[1] * t[2]); }
template<int D> std::array<int, 3> cell_at(const real *x)
{
  std::array<int, 3> t{ 0, 0, 0 };
  for (int d = 0; d < D; ++d) {
    int c = 0;
    while (c + 1 < w.n[static_cast<std::size_t>(d)] && x[d] > c + 1) ++c;
    t[static_cast<std::size_t>(d)] = c;
  }
  return t;
}
int measured_cell()
{
  for (std::size_t i = 0; i < w.state.size(); ++i)
    if (w.state[i] > pos) return static_cast<int>(i);
  return -1;
}
template<int D> void cell_coords(int f, int *t)
{
  t[0] = f % w.n[0];
  t[1] = (f / w.n[0]) % w.n[1];
  if constexpr (D == 3) t[2] = f / (w.n[0] * w.n[1]);
}
// (facet of the measured cell, node) that a point is
template<int D> bool node_of(const Point<D> &x, int &facet, int &k)
{
  const int c = measured_cell();
  if (c < 0) return false;
  int t[3] = { 0, 0, 0 };
  cell_coords<D>(c, t);
  for (int d = 0; d < D; ++d)
    for (int s = 0; s < 2; ++s) {
      if (!(x(d) == t[d] + s)) continue;
      const int free = d == 0 ? 1 : 0;
      facet = 2 * d + s;
      k = x(free) < t[free] + 0.5 ? 0 : 1;
      return true;
    }
  return false;
}
template<int D> void prepare(int dim, int side, const algoim::uvector<real, D> &lo, const algoim::uvector<real, D> &hi)
{
  using H = algoim::QuadHook<D>;
  H::nodes.clear();
  H::weights.clear();
  real mid[3] = { 0.0, 0.0, 0.0 };
  for (int d = 0; d < D; ++d) mid[d] = 0.5 * (lo(d) + hi(d));
  if (dim < 0) {
    const int st = w.state[static_cast<std::size_t>(flat(cell_at<D>(mid)))];
    if (st == und_none) return;
    algoim::uvector<real, D> x(0.5);
    H::nodes.push_back(x);
    H::weights.push_back(st == und_all ? 1.0 : 0.375);
  } else {
    const auto f = static_cast<std::size_t>(2 * dim + side);
    for (int k = 0; k < w.n_nodes[f]; ++k) {
      algoim::uvector<real, D> x(0.5);
      x(dim == 0 ? 1 : 0) = k == 0 ? 0.25 : 0.75;
      H::nodes.push_back(x);
      H::weights.push_back((w.full_measure[f] ? 1.0 : 0.25) / w.n_nodes[f]);
    }
  }
}
template<int D> struct Phi : ImplicitFunc<D>
{
  using I = algoim::Interval<D>;
  real operator()(const Point<D> &x) const override
  {
    int f = 0, k = 0;
    if (!node_of<D>(x, f, k)) return -1.0;
    return w.kind[static_cast<std::size_t>(f)][static_cast<std::size_t>(k)] == inside ? -1.0 : 0.0;
  }
  I operator()(const Point<D, I> &x) const override
  {
    bool any_neg = false, any_pos = false, any_und = false;
    int covered = 0;
    int t[3] = { 0, 0, 0 };
    for (std::size_t c = 0; c < w.state.size(); ++c) {
      cell_coords<D>(static_cast<int>(c), t);
      bool in = true;
      for (int d = 0; d < D; ++d) {
        const real m = t[d] + 0.5, a = x(d).alpha, h = algoim::Interval<D>::delta(d);
        in = in && m > a - h && m < a + h;
      }
      if (!in) continue;
      ++covered;
      any_neg = any_neg || w.state[c] == neg;
      any_pos = any_pos || w.state[c] == pos;
      any_und = any_und || w.state[c] > pos;
    }
    if (any_und || (any_neg && any_pos) || (w.coarse && covered > 1)) return I(0.0, algoim::uvector<real, D>(0.0), 1.0);
    return I(any_neg ? -1.0 : 1.0);
  }
  Vector<real, D> grad(const Point<D> &x) const override
  {
    int f = 0, k = 0;
    Vector<real, D> g(0.0);
    if (!node_of<D>(x, f, k)) return g;
    const int dir = f / 2, side = f % 2, kd = w.kind[static_cast<std::size_t>(f)][static_cast<std::size_t>(k)];
    const real out = side == 0 ? -2.0 : 2.0;
    if (kd == unf) g(dir) = out;
    else if (kd == ext) g(dir) = -out;
    else g(dir == 0 ? 1 : 0) = 3.0;
    return g;
  }
  Vector<I, D> grad(const Point<D, I> &) const override { return Vector<I, D>(); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
};
template<int D> using Dom = UnfittedImplDomain<D>;
bool has(const Ids &v, std::int64_t c) { return std::find(v.begin(), v.end(), c) != v.end(); }
bool ascending(const Ids &v)
{
  for (std::size_t i = 1; i < v.size(); ++i)
    if (v[i] <= v[i - 1]) return false;
  return true;
}
// the lists of (cell, facet) hold exactly what the predicate says, once
template<int D, typename P> bool same(const Dom<D> &dom, const Ids &c, const std::vector<int> &f, const P &p)
{
  if (c.size() != f.size()) return false;
  std::size_t n = 0;
  for (std::int64_t i = 0; i < static_cast<std::int64_t>(dom.get_num_total_cells()); ++i)
    for (int l = 0; l < 2 * D; ++l) {
      int k = 0;
      for (std::size_t j = 0; j < c.size(); ++j)
        if (c[j] == i && f[j] == l) ++k;
      if (k != (p(i, l) ? 1 : 0)) return false;
      if (k == 1) ++n;
    }
  return n == c.size();
}
template<int D> void start(const std::array<int, D> &n)
{
  w = World();
  for (int d = 0; d < D; ++d) w.n[static_cast<std::size_t>(d)] = n[static_cast<std::size_t>(d)];
  algoim::QuadHook<D>::prepare = prepare<D>;
}
template<int D> void check_cells(const Dom<D> &dom, const Ids *targets)
{
  const auto total = static_cast<std::int64_t>(w.state.size());
  qv_check(static_cast<std::int64_t>(dom.get_num_total_cells()) == total, "all cells of the grid are counted");
  Ids full, empty, cut;
  dom.get_full_cells(full);
  dom.get_empty_cells(empty);
  dom.get_cut_cells(cut);
  std::size_t n_full = 0, n_empty = 0, n_cut = 0;
  for (std::int64_t c = 0; c < total; ++c) {
    const bool in = targets == nullptr || has(*targets, c);
    const int s = w.state[static_cast<std::size_t>(c)];
    const bool f = in && (s == neg || s == und_all), e = in && (s == pos || s == und_none), k = in && s == und_part;
    n_full += f ? 1 : 0;
    n_empty += e ? 1 : 0;
    n_cut += k ? 1 : 0;
    qv_check(dom.is_full_cell(c) == f, "a cell is full if and only if the function is negative in all of it");
    qv_check(dom.is_empty_cell(c) == e, "a cell is empty if and only if the function is positive in all of it");
    qv_check(dom.is_cut_cell(c) == k, "a cell is cut if and only if the domain is a part of it");
    qv_check(has(full, c) == f && has(empty, c) == e && has(cut, c) == k, "the lists of cells hold the cells of that status");
    qv_check(!dom.is_full_with_unf_bdry_cell(c) || f, "only full cells are full cells with unfitted boundary");
    qv_check(dom.is_cell_with_unf_bdry(c) == (k || dom.is_full_with_unf_bdry_cell(c)), "cells with unfitted boundary are the cut ones and the full ones with it");
  }
  qv_check(ascending(full) && ascending(empty) && ascending(cut), "the lists of cells are sorted, without repetitions");
  qv_check(full.size() == n_full && empty.size() == n_empty && cut.size() == n_cut, "the lists of cells hold nothing else");
  qv_check(dom.get_num_full_cells() == n_full && dom.get_num_empty_cells() == n_empty && dom.get_num_cut_cells() == n_cut, "the numbers of cells are the sizes of the lists");
}
template<int D> void check_targets(const Dom<D> &dom)
{
  // a list of target cells, unsorted
  const auto total = static_cast<std::int64_t>(w.state.size());
  Ids targets;
  for (std::int64_t c = total - 1; c >= 0; c -= 2) targets.push_back(c);
  if (total > 1) targets.push_back(total > 2 && targets.back() == 0 ? 1 : 0);
  Ids full, empty, cut;
  dom.get_full_cells(targets, full);
  dom.get_empty_cells(targets, empty);
  dom.get_cut_cells(targets, cut);
  for (std::int64_t c = 0; c < total; ++c) {
    const bool in = has(targets, c);
    qv_check(has(full, c) == (in && dom.is_full_cell(c)), "the full target cells");
    qv_check(has(empty, c) == (in && dom.is_empty_cell(c)), "the empty target cells");
    qv_check(has(cut, c) == (in && dom.is_cut_cell(c)), "the cut target cells");
  }
  qv_check(ascending(full) && ascending(empty) && ascending(cut), "lists of target cells are sorted");
}
template<int D> void check_facets(const Dom<D> &dom)
{
  Ids c;
  std::vector<int> f;
  dom.get_full_facets(c, f);
  qv_check(same<D>(dom, c, f, [&](std::int64_t i, int l) { return dom.is_full_facet(i, l); }), "the list of full facets holds them all, once");
  dom.get_empty_facets(c, f);
  qv_check(same<D>(dom, c, f, [&](std::int64_t i, int l) { return dom.is_empty_facet(i, l); }), "the list of empty facets holds them all, once");
  dom.get_cut_facets(c, f);
  qv_check(same<D>(dom, c, f, [&](std::int64_t i, int l) { return dom.is_cut_facet(i, l); }), "the list of cut facets holds them all, once");
  dom.get_full_unfitted_facets(c, f);
  qv_check(same<D>(dom, c, f, [&](std::int64_t i, int l) { return dom.is_full_unfitted_facet(i, l); }), "the list of full unfitted facets holds them all, once");
  dom.get_unfitted_facets(c, f);
  qv_check(same<D>(dom, c, f, [&](std::int64_t i, int l) { return dom.has_unfitted_boundary(i, l); }), "the list of facets with unfitted boundary holds them all, once");
  qv_check(dom.has_facets_with_unf_bdry() == !c.empty(), "there are facets with unfitted boundary if and only if the list has some");
  // restricted to target facets, in their order
  Ids tc, rc;
  std::vector<int> tf, rf;
  const auto total = static_cast<std::int64_t>(w.state.size());
  for (std::int64_t i = total - 1; i >= 0; --i)
    for (int l = 0; l < 2 * D; ++l)
      if ((i + l) % 3 != 0) {
        tc.push_back(i);
        tf.push_back(l);
      }
  for (int which = 0; which < 5; ++which) {
    if (which == 0) dom.get_full_facets(tc, tf, c, f);
    else if (which == 1) dom.get_empty_facets(tc, tf, c, f);
    else if (which == 2) dom.get_cut_facets(tc, tf, c, f);
    else if (which == 3) dom.get_full_unfitted_facets(tc, tf, c, f);
    else dom.get_unfitted_facets(tc, tf, c, f);
    std::size_t k = 0;
    bool ok = c.size() == f.size();
    for (std::size_t j = 0; j < tc.size(); ++j) {
      const bool p = which == 0 ? dom.is_full_facet(tc[j], tf[j]) : which == 1 ? dom.is_empty_facet(tc[j], tf[j]) : which == 2 ? dom.is_cut_facet(tc[j], tf[j]) : which == 3 ? dom.is_full_unfitted_facet(tc[j], tf[j]) : dom.has_unfitted_boundary(tc[j], tf[j]);
      if (!p) continue;
      ok = ok && k < c.size() && c[k] == tc[j] && f[k] == tf[j];
      ++k;
    }
    qv_check(ok && k == c.size(), "the target facets of a status are those of the list, in its order");
  }
  for (std::int64_t i = 0; i < total; ++i)
    for (int l = 0; l < 2 * D; ++l) {
      const int s = (dom.is_full_facet(i, l) ? 1 : 0) + (dom.is_empty_facet(i, l) ? 1 : 0) + (dom.is_cut_facet(i, l) ? 1 : 0) + (dom.is_full_unfitted_facet(i, l) ? 1 : 0);
      qv_check(s <= 1, "full, empty, cut and full unfitted facets are different ones");
      qv_check(!dom.is_full_unfitted_facet(i, l) || dom.has_unfitted_boundary(i, l), "full unfitted facets have unfitted boundary");
      qv_check(dom.is_exterior_facet(i, l) == dom.get_grid()->on_boundary(i, l), "exterior facets are those of the boundary of the grid");
      if (dom.is_empty_cell(i)) qv_check(dom.is_empty_facet(i, l), "the facets of empty cells are empty");
      if (dom.is_full_cell(i) && !dom.is_full_with_unf_bdry_cell(i)) qv_check(dom.is_full_facet(i, l) && !dom.has_unfitted_boundary(i, l), "the facets of full cells without unfitted boundary are full");
    }
}
template<int D> void cells(const std::array<int, D> &n, bool all_states = true)
{
  start<D>(n);
  w.coarse = all_states && qv_each("coarse", 0, 1) == 1;
  int total = 1;
  for (int d = 0; d < D; ++d) total *= n[static_cast<std::size_t>(d)];
  int measured = 0;
  for (int c = 0; c < total; ++c) {
    w.state.push_back(qv::each(qv::idx("state", c), 0, all_states ? 4 : 2));
    if (!all_states && w.state.back() == 2) w.state.back() = und_part;
    if (w.state.back() > pos) ++measured;
  }
  const auto grid = unit_grid<D>(n);
  const Dom<D> dom(std::make_shared<Phi<D>>(), grid);
  check_cells<D>(dom, nullptr);
  check_targets<D>(dom);
  if (measured <= 1) check_facets<D>(dom);
}
template<int D> void some_cells(const std::array<int, D> &n)
{
  start<D>(n);
  int total = 1;
  for (int d = 0; d < D; ++d) total *= n[static_cast<std::size_t>(d)];
  Ids targets;
  for (int c = total - 1; c >= 0; --c)
    if (qv_each(qv::idx("in", c), 0, 1) == 1) targets.push_back(c);
  for (int c = 0; c < total; ++c) w.state.push_back(has(targets, c) ? qv::each(qv::idx("state", c), 0, 2) : qv::each(qv::idx("state", c), 0, 1));
  const Dom<D> dom(std::make_shared<Phi<D>>(), unit_grid<D>(n), targets);
  check_cells<D>(dom, &targets);
}
template<int D> void facets(int lo, int hi)
{
  std::array<int, D> n{};
  n.fill(1);
  n[0] = 2;
  start<D>(n);
  const int cell = D == 2 ? qv::each("cell", 0, 1) : 1;
  w.state = { neg, neg };
  w.state[static_cast<std::size_t>(cell)] = qv::each("state", und_all, und_part);
  const bool full_cell = w.state[static_cast<std::size_t>(cell)] == und_all;
  const int f = qv::each("facet", lo, hi);
  const auto u = static_cast<std::size_t>(f);
  w.n_nodes[u] = qv::each("nodes", 0, 2);
  for (int k = 0; k < w.n_nodes[u]; ++k) w.kind[u][static_cast<std::size_t>(k)] = qv::each(qv::idx("kind", k), 0, 3);
  w.full_measure[u] = w.n_nodes[u] == 0 ? false : qv_each("full", 0, 1) == 1;
  const Dom<D> dom(std::make_shared<Phi<D>>(), unit_grid<D>(n));
  bool any_in = false, any_unf = false, any_ext = false;
  for (int k = 0; k < w.n_nodes[u]; ++k) {
    const int kd = w.kind[u][static_cast<std::size_t>(k)];
    any_in = any_in || kd == inside;
    any_unf = any_unf || kd == unf;
    any_ext = any_ext || kd == ext;
  }
  const bool full = w.full_measure[u];
  bool e_full = any_in && !any_unf && !any_ext && full, e_cut = any_in && !e_full, e_unf = any_unf, e_ext = any_ext, e_empty = !any_in && !any_unf;
  bool e_full_unf = any_unf && !any_in && !any_ext && full && w.n_nodes[u] == 1;
  if (full_cell && !any_in) {
    e_full = e_cut = e_ext = e_empty = false;
    e_unf = e_full_unf = true;
  }
  qv_check(dom.is_full_facet(cell, f) == e_full, "a facet is full if it is inside and measures all of it");
  qv_check(dom.is_cut_facet(cell, f) == e_cut, "a facet is cut if a part of it is inside");
  qv_check(dom.is_empty_facet(cell, f) == e_empty, "a facet is empty if nothing of it is inside nor on the unfitted boundary");
  qv_check(dom.is_full_unfitted_facet(cell, f) == e_full_unf, "a facet is full unfitted if all of it is unfitted boundary");
  qv_check(dom.has_unfitted_boundary(cell, f) == e_unf, "a facet has unfitted boundary if the domain ends there");
  qv_check(dom.has_external_boundary(cell, f) == e_ext, "a facet has external boundary if another domain ends there");
  for (int l = 0; l < 2 * D; ++l)
    if (l != f) qv_check(dom.is_full_facet(cell, l), "the other facets are full");
  qv_check(dom.is_full_with_unf_bdry_cell(cell) == (full_cell && !e_full), "a full cell with a facet that is not full has unfitted boundary");
  check_facets<D>(dom);
}
}// namespace
HARNESS(n_cells2) { cells<2>({ 2, 2 }, false); }
HARNESS(t_cells2_all) { cells<2>({ 2, 2 }); }
HARNESS(n_cells2_row) { cells<2>({ 3, 1 }); }
HARNESS(n_cells3) { cells<3>({ 1, 2, 2 }, false); }
HARNESS(n_cells3_all) { cells<3>({ 1, 1, 2 }); }
HARNESS(t_cells2) { cells<2>({ 5, 1 }, false); }
HARNESS(n_some_cells2) { some_cells<2>({ 2, 2 }); }
HARNESS(n_some_cells2_row) { some_cells<2>({ 3, 1 }); }
HARNESS(n_some_cells3) { some_cells<3>({ 1, 1, 3 }); }
HARNESS(n_facets2a) { facets<2>(0, 1); }
HARNESS(n_facets2b) { facets<2>(2, 3); }
HARNESS(n_facets3a) { facets<3>(0, 2); }
HARNESS(n_facets3b) { facets<3>(3, 5); }
// ------------------------------------------------------------------ the tree
namespace {
// of a grid, or of the cells of it between two tensor indices
template<int D> void tree(const std::array<int, D> &n, int branches, const std::array<int, D> &from = {}, const std::array<int, D> &to = {})
{
  using Tree = UnfittedBinarySpacePart<D>;
  const auto grid = unit_grid<D>(n);
  int total = 1;
  for (int d = 0; d < D; ++d) total *= n[static_cast<std::size_t>(d)];
  const bool part = to[0] > 0;
  std::vector<bool> here(static_cast<std::size_t>(total), true);
  std::shared_ptr<Tree> t;
  if (part) {
    TensorIndexTP<D> a;
    TensorIndexTP<D> b;
    for (int d = 0; d < D; ++d) {
      a(d) = from[static_cast<std::size_t>(d)];
      b(d) = to[static_cast<std::size_t>(d)];
    }
    t = std::make_shared<Tree>(std::make_shared<const SubCartGridTP<D>>(grid, a, b));
    for (int c = 0; c < total; ++c) {
      int r = c;
      for (int d = 0; d < D; ++d) {
        const int k = r % n[static_cast<std::size_t>(d)];
        r /= n[static_cast<std::size_t>(d)];
        if (k < from[static_cast<std::size_t>(d)] || k >= to[static_cast<std::size_t>(d)]) here[static_cast<std::size_t>(c)] = false;
      }
    }
  } else {
    t = std::make_shared<Tree>(grid);
  }
  qv_check(t->is_leaf() && t->get_status() == ImmersedCellStatus::unknown, "a new tree is a leaf of unknown status");
  qv_check(t->get_grid() == grid, "the tree is that of the grid");
  for (std::int64_t c = 0; c < total; ++c) qv_check(t->is_in_tree(c) == here[static_cast<std::size_t>(c)], "a new tree holds all cells");
  // any shape of at most the given number of branches, any status
  std::vector<std::shared_ptr<Tree>> leaves{ t };
  for (int k = 0; k < branches; ++k) {
    const int which = qv::each(qv::idx("branch", k), -1, static_cast<int>(leaves.size()) - 1);
    if (which < 0) break;
    const auto l = leaves[static_cast<std::size_t>(which)];
    if (l->get_subgrid()->is_unique_cell()) break;
    l->branch();
    qv_check(!l->is_leaf(), "a branched tree is no leaf");
    leaves[static_cast<std::size_t>(which)] = l->get_child(0);
    leaves.push_back(l->get_child(1));
  }
  std::vector<ImmersedCellStatus> of(static_cast<std::size_t>(total), ImmersedCellStatus::unknown);
  std::vector<int> times(static_cast<std::size_t>(total), 0);
  std::array<std::size_t, 4> n_leaves{ 0, 0, 0, 0 };
  for (std::size_t i = 0; i < leaves.size(); ++i) {
    auto s = static_cast<ImmersedCellStatus>(qv::each(qv::idx("status", static_cast<int>(i)), 0, 3));
    if (s == ImmersedCellStatus::cut && !leaves[i]->get_subgrid()->is_unique_cell()) s = ImmersedCellStatus::full;
    if (s != ImmersedCellStatus::unknown) leaves[i]->set_status(s);
    qv_check(leaves[i]->get_status() == s, "a leaf has the status it is given");
    ++n_leaves[static_cast<std::size_t>(s)];
    for (std::int64_t c = 0; c < total; ++c)
      if (leaves[i]->is_in_tree(c)) {
        of[static_cast<std::size_t>(c)] = s;
        ++times[static_cast<std::size_t>(c)];
        qv_check(t->find_leaf(c).get() == leaves[i].get(), "the leaf found is the one that holds the cell");
      }
  }
  for (std::int64_t c = 0; c < total; ++c)
    qv_check(times[static_cast<std::size_t>(c)] == (here[static_cast<std::size_t>(c)] ? 1 : 0), "every cell is in exactly one leaf");
  Ids all;
  for (std::int64_t c = 0; c < total; ++c)
    if (here[static_cast<std::size_t>(c)]) all.push_back(c);
  for (int k = 0; k < 4; ++k) {
    const auto s = static_cast<ImmersedCellStatus>(k);
    Ids ids, targets{ all.back(), all.front() }, sub;
    t->get_cell_ids(s, ids);
    if (all.size() == 1) targets.pop_back();
    t->get_cell_ids(s, targets, sub);
    std::size_t m = 0;
    for (std::int64_t c = 0; c < total; ++c) {
      const bool p = here[static_cast<std::size_t>(c)] && of[static_cast<std::size_t>(c)] == s;
      m += p ? 1 : 0;
      if (here[static_cast<std::size_t>(c)]) qv_check(t->is_cell(s, c) == p, "a cell has the status of its leaf");
      qv_check(has(ids, c) == p, "the cells of a status are those of its leaves");
      qv_check(has(sub, c) == (p && has(targets, c)), "the target cells of a status");
    }
    qv_check(ids.size() == m && ascending(ids) && ascending(sub), "cells are listed in order, once");
    qv_check(t->get_num_cells(s) == m, "the number of cells of a status");
    qv_check(t->get_num_leaves(s) == n_leaves[static_cast<std::size_t>(k)], "the number of leaves of a status");
    std::vector<std::shared_ptr<const Tree>> found;
    t->get_leaves(s, found);
    qv_check(found.size() == n_leaves[static_cast<std::size_t>(k)], "the leaves of a status");
    for (const auto &l : found) qv_check(l->is_leaf() && l->get_status() == s, "the leaves of a status");
  }
}
}// namespace
HARNESS(n_tree2) { tree<2>({ 2, 3 }, 2); }
HARNESS(n_tree3) { tree<3>({ 2, 1, 2 }, 2); }
HARNESS(n_part2) { tree<2>({ 3, 3 }, 1, { 1, 1 }, { 3, 3 }); }
HARNESS(n_part3) { tree<3>({ 2, 3, 3 }, 1, { 1, 0, 1 }, { 2, 2, 3 }); }
HARNESS(t_tree2) { tree<2>({ 2, 3 }, 3); }
// ------------------------------------- domains of Bezier functions, a + b x + c y
namespace {
template<int D> std::array<real, D + 1> bz;
template<int D> real value(const Point<D> &x)
{
  real v = bz<D>[0];
  for (int d = 0; d < D; ++d) v = v + bz<D>[static_cast<std::size_t>(d) + 1] * x(d);
  return v;
}
// cells are [0,1] and [1,2] in the first direction; two points per direction, all equal weights
template<int D> void bezier_cells()
{
  algoim::QuadHook<D>::prepare = nullptr;
  algoim::QuadHook<D - 1>::prepare = nullptr;
  for (int d = 0; d <= D; ++d) bz<D>[static_cast<std::size_t>(d)] = d == 2 && D == 2 ? 0.0 : qv_real(qv::idx("c", d));
  TensorSizeTP<D> order(2);
  std::vector<real> coefs;
  for (int f = 0; f < (1 << D); ++f) {
    Point<D> x;
    for (int d = 0; d < D; ++d) x(d) = (f >> d) & 1;
    coefs.push_back(value<D>(x));
  }
  const auto bezier = std::make_shared<const BezierTP<D>>(order, coefs);
  auto &q = algoim::QuadHook<D>::nodes;
  auto &qf = algoim::QuadHook<D - 1>::nodes;
  q.clear();
  qf.clear();
  algoim::QuadHook<D>::weights.clear();
  algoim::QuadHook<D - 1>::weights.clear();
  for (int f = 0; f < (1 << D); ++f) {
    algoim::uvector<real, D> x;
    // algoim orders the directions of polynomials the other way round
    for (int d = 0; d < D; ++d) x(D - 1 - d) = ((f >> d) & 1) ? 0.75 : 0.25;
    q.push_back(x);
    algoim::QuadHook<D>::weights.push_back(1.0 / (1 << D));
  }
  for (int f = 0; f < (1 << (D - 1)); ++f) {
    algoim::uvector<real, D - 1> x;
    for (int d = 0; d < D - 1; ++d) x(D - 2 - d) = ((f >> d) & 1) ? 0.75 : 0.25;
    qf.push_back(x);
    algoim::QuadHook<D - 1>::weights.push_back(1.0 / (1 << (D - 1)));
  }
  std::array<int, D> n{};
  n.fill(1);
  n[0] = 2;
  // no point is close to the boundary, all points are in general position
  std::array<int, 2> neg_pts{ 0, 0 };
  std::array<std::array<int, 6>, 2> neg_facet{};
  for (int c = 0; c < 2; ++c) {
    for (int f = 0; f < (1 << D); ++f) {
      Point<D> x;
      for (int d = 0; d < D; ++d) x(d) = (((f >> d) & 1) ? 0.75 : 0.25) + (d == 0 ? c : 0);
      const real v = value<D>(x);
      qv_assume(v > 0.01 || v < -0.01);
      if (v < 0.0) ++neg_pts[static_cast<std::size_t>(c)];
    }
    for (int l = 0; l < 2 * D; ++l)
      for (int f = 0; f < (1 << (D - 1)); ++f) {
        Point<D> x;
        int k = 0;
        for (int d = 0; d < D; ++d) {
          if (d == l / 2) x(d) = l % 2;
          else {
            x(d) = ((f >> k) & 1) ? 0.75 : 0.25;
            ++k;
          }
          if (d == 0) x(d) = x(d) + c;
        }
        const real v = value<D>(x);
        qv_assume(v > 0.01 || v < -0.01);
        if (v < 0.0) ++neg_facet[static_cast<std::size_t>(c)][static_cast<std::size_t>(l)];
      }
  }
  const Dom<D> dom(bezier, unit_grid<D>(n));
  for (int c = 0; c < 2; ++c) {
    const int m = neg_pts[static_cast<std::size_t>(c)];
    qv_check(dom.is_full_cell(c) == (m == (1 << D)), "a cell is full if the polynomial is negative in all of it");
    qv_check(dom.is_empty_cell(c) == (m == 0), "a cell is empty if the polynomial is positive in all of it");
    qv_check(dom.is_cut_cell(c) == (m > 0 && m < (1 << D)), "a cell is cut if the polynomial is negative in a part of it");
    if (!dom.is_cut_cell(c)) continue;
    for (int l = 0; l < 2 * D; ++l) {
      const int k = neg_facet[static_cast<std::size_t>(c)][static_cast<std::size_t>(l)], all = 1 << (D - 1);
      qv_check(dom.is_full_facet(c, l) == (k == all), "a facet is full if the polynomial is negative in all of it");
      qv_check(dom.is_empty_facet(c, l) == (k == 0), "a facet is empty if the polynomial is positive in all of it");
      qv_check(dom.is_cut_facet(c, l) == (k > 0 && k < all), "a facet is cut if the polynomial is negative in a part of it");
    }
  }
}
}// namespace
HARNESS(n_bezier2) { bezier_cells<2>(); }
