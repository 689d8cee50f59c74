// Contracts of the merging of coincident points: any points.
#include <cassert>
#include "qvc.h"
// LINK: point.cpp tolerance.cpp
#include <cstddef>
#include <vector>
#include <qugar/point.hpp>
#include <qugar/tolerance.hpp>
using namespace qugar;
namespace {
template<int D> std::vector<Point<D>> any_points(int n, int grid)
{
  // the first coordinates are any reals, the others are on a lattice
  std::vector<Point<D>> p;
  for (int i = 0; i < n; ++i) {
    Point<D> x(0.0);
    for (int d = 0; d < D; ++d)
      x(d) = d < grid ? qv_real(qv::idx2("x", i, d)) : i == 0 ? 0.25 : 0.25 * qv::each(qv::idx2("x", i, d), 0, 1);
    p.push_back(x);
  }
  return p;
}
real dist(real a, real b) { return a < b ? b - a : a - b; }
// largest difference of a coordinate is at most t
template<int D> bool within(const Point<D> &a, const Point<D> &b, real t)
{
  bool ok = true;
  for (int d = 0; d < D; ++d) ok = ok && dist(a(d), b(d)) <= t;
  return ok;
}
template<int D> void merge(int n, int grid, real t)
{
  const auto p = any_points<D>(n, grid);
  const Tolerance tol(t);
  std::vector<std::size_t> map{ 7, 7, 7, 7, 7, 7, 7, 7 };
  find_coincident_points<D>(p, tol, map);
  const auto size = static_cast<std::size_t>(n);
  qv_check(map.size() == size, "one entry per point");
  for (std::size_t i = 0; i < size; ++i) {
    qv_check(map[i] < size && map[map[i]] == map[i], "points are mapped to points that are mapped to themselves");
    for (std::size_t j = 0; j < i; ++j) {
      const bool together = map[i] == map[j];
      if (!together) qv_check(!within<D>(p[i], p[j], t), "coincident points are merged");
      else qv_check(within<D>(p[i], p[j], (n - 1) * t), "points that are apart are not merged");
    }
  }
  auto u = p;
  std::vector<std::size_t> to{ 9 };
  make_points_unique<D>(u, tol, to);
  qv_check(to.size() == size && u.size() <= size, "one new index per point");
  std::vector<bool> used(size, false);
  for (std::size_t i = 0; i < size; ++i) {
    qv_check(to[i] < u.size(), "new indices are those of the points kept");
    used[to[i]] = true;
    qv_check(within<D>(u[to[i]], p[i], (n - 1) * t), "a point is mapped to itself, or one close to it");
    for (std::size_t j = 0; j < i; ++j) qv_check((to[i] == to[j]) == (map[i] == map[j]), "the points merged are the coincident ones");
  }
  // the points kept are some of the given ones, in their order
  std::size_t at = 0;
  for (std::size_t k = 0; k < u.size(); ++k) {
    qv_check(used[k], "every point kept is that of some given point");
    bool found = false;
    for (; at < size && !found; ++at) {
      bool same = to[at] == k;
      for (int d = 0; d < D; ++d) same = same && u[k](d) == p[at](d);
      found = same;
    }
    qv_check(found, "points are kept as they were, in their order");
  }
}
}// namespace
HARNESS(n_none2) { merge<2>(0, 2, 1e-3); }
HARNESS(n_one3) { merge<3>(1, 3, 1e-3); }
HARNESS(n_two2) { merge<2>(2, 2, 1e-3); }
HARNESS(n_two3) { merge<3>(2, 3, 1e-3); }
HARNESS(n_three2) { merge<2>(3, 2, 1e-3); }
HARNESS(n_three3) { merge<3>(3, 2, 1e-3); }
HARNESS(n_three3x) { merge<3>(3, 1, 1e-3); }
HARNESS(n_grid2) { merge<2>(4, 0, 1e-3); }
HARNESS(n_grid2x) { merge<2>(4, 1, 1e-3); }
HARNESS(n_grid3) { merge<3>(4, 0, 1e-3); }
