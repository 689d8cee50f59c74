// Contracts of the numbering of facets and edges and of the lists of roots.
#include <cassert>
#include "qvc.h"
// LINK: impl_utils.cpp tolerance.cpp point.cpp
#include <cstddef>
#include <vector>
#include <qugar/impl_utils.hpp>
#include <qugar/point.hpp>
#include <qugar/tolerance.hpp>
#include <qugar/vector.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
template<typename T> auto &el(T &v, int i) { return v[static_cast<std::size_t>(i)]; }
template<int D> void facets()
{
  const int f = qv::integer("facet", 0, 2 * D - 1);
  const int dir = get_facet_constant_dir<D>(f), side = get_facet_side<D>(f);
  qv_check(dir >= 0 && dir < D && (side == 0 || side == 1), "facets have a direction and a side");
  qv_check(get_local_facet_id<D>(dir, side) == f, "a facet is that of its direction and side");
  const int d = qv::integer("dir", 0, D - 1), s = qv::integer("side", 0, 1);
  const int g = get_local_facet_id<D>(d, s);
  qv_check(g >= 0 && g < 2 * D && get_facet_constant_dir<D>(g) == d && get_facet_side<D>(g) == s, "every direction and side has a facet");
}
template<int D> void edges()
{
  constexpr int n = D == 2 ? 4 : 12;
  const int e = qv::each("edge", 0, n - 1);
  const auto dirs = get_edge_constant_dirs<D>(e), sides = get_edge_sides<D>(e);
  for (int i = 0; i < D - 1; ++i) {
    qv_check(dirs(i) >= 0 && dirs(i) < D && (i == 0 || dirs(i - 1) < dirs(i)), "edges have D - 1 constant directions, in order");
    qv_check(sides(i) == 0 || sides(i) == 1, "edges have a side in each constant direction");
  }
  // lexicographical: by directions, the side of the first direction fastest
  qv_check(e % (D == 2 ? 2 : 4) == (D == 2 ? sides(0) : sides(0) + 2 * sides(D - 2)), "edges are numbered by their sides");
  for (int f = 0; f < e; ++f) {
    const auto fd = get_edge_constant_dirs<D>(f), fs = get_edge_sides<D>(f);
    bool same = true, before = false, equal = true;
    for (int i = 0; i < D - 1; ++i) {
      same = same && fd(i) == dirs(i) && fs(i) == sides(i);
      if (equal && fd(i) != dirs(i)) {
        before = fd(i) < dirs(i);
        equal = false;
      }
    }
    qv_check(!same, "edges are different");
    qv_check(equal || before, "edges are numbered by their directions");
  }
}
real dist(real a, real b) { return a < b ? b - a : a - b; }
template<int D> void sorted(int n)
{
  RootsIntervals<D> r;
  qv_check(r.empty() && r.get_num_roots() == 0, "there are no roots to start with");
  std::vector<real> x;
  for (int i = 0; i < n; ++i) {
    x.push_back(qv_real(qv::idx("x", i)));
    r.add_root(x.back(), i - 1);
    qv_check(r.get_num_roots() == i + 1 && !r.empty() && el(r.roots, i) == x.back() && el(r.func_ids, i) == i - 1, "roots are added at the end");
  }
  r.sort_roots();
  qv_check(r.get_num_roots() == n && static_cast<int>(r.func_ids.size()) == n, "sorting keeps the number of roots");
  std::vector<int> seen(static_cast<std::size_t>(n), 0);
  for (int i = 0; i < n; ++i) {
    if (i > 0) qv_check(el(r.roots, i - 1) <= el(r.roots, i), "sorted roots are in order");
    const int id = el(r.func_ids, i) + 1;
    qv_check(id >= 0 && id < n && el(seen, id) == 0, "sorting keeps the functions");
    el(seen, id) = 1;
    qv_check(el(r.roots, i) == el(x, id), "sorting keeps every root with its function");
  }
  r.clear();
  qv_check(r.empty() && r.func_ids.empty() && r.active_intervals.empty(), "clearing leaves no root");
  r.add_root(3.0, 4);
  r.add_root(1.0, 2);
  r.sort_roots();
  qv_check(r.get_num_roots() == 2 && r.roots[0] == 1.0 && r.roots[1] == 3.0 && r.func_ids[0] == 2 && r.func_ids[1] == 4, "clearing leaves nothing behind");
}
// roots of functions 0, 1, 2... and, if asked for, the ends of the interval
template<int D> void adjusted(int n)
{
  const real t = 0.0001, x0 = qv_real("x0"), len = qv_real("len");
  qv_assume(x0 > -10.0 && x0 < 10.0 && len > 0.01 && len < 10.0);
  const real x1 = x0 + len;
  const bool ends = qv_each("ends", 0, 1) == 1;
  RootsIntervals<D> r;
  if (ends) r.add_root(x1, -1);
  std::vector<real> x;
  for (int i = 0; i < n; ++i) {
    x.push_back(qv_real(qv::idx("x", i)));
    qv_assume(x.back() >= x0 && x.back() <= x1);
    r.add_root(x.back(), i);
  }
  if (ends) r.add_root(x0, -1);
  r.adjust_roots(Tolerance(t), x0, x1);
  const int total = n + (ends ? 2 : 0);
  qv_check(r.get_num_roots() == total && static_cast<int>(r.func_ids.size()) == total, "adjusting keeps the number of roots");
  if (ends) {
    qv_check(r.func_ids.front() == -1 && r.roots.front() == x0, "the start of the interval comes first");
    qv_check(r.func_ids.back() == -1 && r.roots.back() == x1, "the end of the interval comes last");
  }
  std::vector<int> seen(static_cast<std::size_t>(n), 0);
  for (int i = 0; i < total; ++i) {
    if (i > 0) qv_check(el(r.roots, i - 1) <= el(r.roots, i), "adjusted roots are in order");
    const int id = el(r.func_ids, i);
    if (id < 0) {
      qv_check(ends && (i == 0 || i == total - 1), "only the ends have no function");
      continue;
    }
    qv_check(id < n && el(seen, id) == 0, "adjusting keeps the functions");
    el(seen, id) = 1;
    const real y = el(r.roots, i);
    qv_check(dist(y, el(x, id)) <= t && y >= x0 && y <= x1, "adjusting moves no root by more than the tolerance");
    if (dist(el(x, id), x0) <= t) qv_check(y == x0, "roots close to the start of the interval are at it");
    else if (dist(el(x, id), x1) <= t) qv_check(y == x1, "roots close to the end of the interval are at it");
    if (i > 0 && el(r.func_ids, i - 1) >= 0) {
      // a pair of close roots with no other one close
      const real p = el(x, el(r.func_ids, i - 1));
      bool alone = dist(p, el(x, id)) <= t;
      for (int k = 0; k < n; ++k)
        if (k != id && k != el(r.func_ids, i - 1)) alone = alone && dist(el(x, k), p) > t;
      alone = alone && dist(p, x0) > t && dist(p, x1) > t;
      if (alone) qv_check(y == el(r.roots, i - 1) || y == x1, "close roots become the same");
    }
  }
}
}// namespace
HARNESS(facets2) { facets<2>(); }
HARNESS(facets3) { facets<3>(); }
HARNESS(edges2) { edges<2>(); }
HARNESS(edges3) { edges<3>(); }
HARNESS(n_sorted1) { sorted<1>(4); }
HARNESS(n_sorted2) { sorted<2>(3); }
HARNESS(n_adjusted1) { adjusted<1>(2); }
HARNESS(n_adjusted2) { adjusted<2>(1); }
HARNESS(n_adjusted3) { adjusted<1>(3); }
