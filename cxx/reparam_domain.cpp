// Contracts of reparameterizations of the cells of unfitted domains: any plane
// of a few directions, and any list of cells.
#include <cassert>
#include "qvc.h"
#include "planes.h"
// LINK: *
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <array>
#include <cstdint>
#include <memory>
#include <vector>
namespace {
template<int D> std::shared_ptr<const CartGridTP<D>> grid_of(const std::array<std::vector<real>, D> &b)
{
  return std::make_shared<const CartGridTP<D>>(b);
}
template<int D, bool levelset> void domain(const std::array<std::vector<real>, D> &breaks, const std::shared_ptr<Plane<D>> &f, bool is_bezier, bool merge)
{
  Plane<D>::current = f.get();
  const auto grid = grid_of<D>(breaks);
  algoim::QuadHook<D>::prepare = region<D>;
  algoim::QuadHook<D>::polynomial = polynomial<D>;
  algoim::QuadHook<D - 1>::polynomial = polynomial<D - 1>;
  std::shared_ptr<const ImplicitFunc<D>> phi = f;
  if (is_bezier) phi = std::make_shared<BezierTP<D, 1>>(bezier<D>(*f, BoundBox<D>(0.0, 1.0)));
  const UnfittedImplDomain<D> dom(phi, grid);
  const auto total = static_cast<std::int64_t>(grid->get_num_cells());
  // all cells, or a list of them, backwards
  const int list = qv::each("list", 0, 2);
  const bool all = list == 0;
  std::vector<std::int64_t> ids;
  for (std::int64_t c = total - 1; c >= 0; --c)
    if (all || c % 3 + 1 == list) ids.push_back(c);
  const auto m = all ? create_reparameterization<D, levelset>(dom, 2, merge) : create_reparameterization<D, levelset>(dom, ids, 2, merge);
  qv_check(m->get_order() == 2, "reparameterizations have as many points as asked for");
  Point<D> lo, hi;
  for (int d = 0; d < D; ++d) {
    lo(d) = el(breaks, d).front();
    hi(d) = el(breaks, d).back();
  }
  const BoundBox<D> box(lo, hi);
  if constexpr (levelset) {
    Vector<real, D> want(0.0);
    for (const auto c : ids) want += normals<D>(*f, grid->get_cell_domain(c));
    check_boundary<D>(*m, *f, box, want);
  } else {
    real want = 0.0;
    for (const auto c : ids) {
      const auto cell = grid->get_cell_domain(c);
      want += volume<D>(cell) * inside<D>(*f, cell);
    }
    check_volume<D>(*m, *f, box, want);
  }
}
template<bool levelset> void domain2(bool is_bezier, bool merge)
{
  const std::array<std::vector<real>, 2> breaks{ { { 0.0, 0.375, 1.0 }, { 0.0, 0.5, 1.0 } } };
  const auto f = std::make_shared<Plane<2>>();
  constexpr std::array<std::array<int, 2>, 3> dirs{ { { -1, 0 }, { 1, 2 }, { 3, -1 } } };
  const int k = qv::each("direction", 0, 2);
  for (int d = 0; d < 2; ++d) f->n(d) = el(el(dirs, k), d);
  f->c = qv_real("c");
  for (const real x : breaks[0])
    for (const real y : breaks[1]) {
      const real v = f->n(0) * x + f->n(1) * y - f->c;
      qv_assume(v > 0.01 || v < -0.01);
    }
  domain<2, levelset>(breaks, f, is_bezier, merge);
}
template<bool levelset> void domain3(bool is_bezier, bool merge, int first = 0, int last = 1)
{
  const std::array<std::vector<real>, 3> breaks{ { { 0.0, 1.0 }, { 0.0, 0.625, 1.0 }, { 0.0, 1.0 } } };
  const auto f = std::make_shared<Plane<3>>();
  constexpr std::array<std::array<int, 3>, 2> dirs{ { { 2, -1, 1 }, { 0, 1, -3 } } };
  const int k = qv::each("direction", first, last);
  for (int d = 0; d < 3; ++d) f->n(d) = el(el(dirs, k), d);
  f->c = qv_real("c");
  for (const real x : breaks[0])
    for (const real y : breaks[1])
      for (const real z : breaks[2]) {
        const real v = f->n(0) * x + f->n(1) * y + f->n(2) * z - f->c;
        qv_assume(v > 0.01 || v < -0.01);
      }
  domain<3, levelset>(breaks, f, is_bezier, merge);
}
}// namespace
HARNESS(n_domain2) { domain2<false>(false, false); }
HARNESS(n_domain2_boundary) { domain2<true>(false, false); }
HARNESS(n_domain2_merged) { domain2<false>(false, true); }
HARNESS(n_domain2_boundary_merged) { domain2<true>(false, true); }
HARNESS(n_bezier_domain2) { domain2<false>(true, false); }
HARNESS(n_bezier_domain2_boundary) { domain2<true>(true, false); }
HARNESS(n_bezier_domain2_merged) { domain2<false>(true, true); }
HARNESS(n_bezier_domain2_boundary_merged) { domain2<true>(true, true); }
HARNESS(n_domain3) { domain3<false>(false, false); }
HARNESS(n_domain3_boundary) { domain3<true>(false, true); }
HARNESS(n_bezier_domain3) { domain3<false>(true, true, 1); }
HARNESS(n_bezier_domain3_boundary) { domain3<true>(true, false, 1); }
HARNESS(t_n_bezier_domain3) { domain3<false>(true, true, 0, 0); }
HARNESS(t_n_bezier_domain3_boundary) { domain3<true>(true, false, 0, 0); }
