// Contracts of the Python bindings of reparameterizations: those of the C++
// functions, of all cells or those of an array, inside or of the boundary.
// LINK: *
#include "bindings.h"
#include "planes.h"
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include QV_WRAP(reparam.cpp)
namespace {
void bind()
{
  py::module_ m;
  qugar::wrappers::reparam(m);
}
template<int D, int R> void same_mesh(V m, const ReparamMesh<D, R> &own)
{
  const V dim = prop(m, "dim"), range = prop(m, "range"), order = prop(m, "order"), cheb = prop(m, "chebyshev");
  qv_check(dim.kind == V::integer && dim.i == D && range.kind == V::integer && range.i == R, "dimensions");
  qv_check(order.kind == V::integer && order.i == own.get_order(), "order");
  qv_check(cheb.kind == V::boolean && cheb.b == own.use_Chebyshev(), "kind of points");
  const V x = prop(m, "points"), c = prop(m, "cells_conn"), w = prop(m, "wirebasket_conn");
  m = V();
  same_points<R>(x, own.get_points(), "points of the mesh");
  const auto conn = [](const V &v, const std::vector<std::size_t> &k, std::size_t n, const char *tag) {
    const bool ok = is_array<std::size_t>(v, { static_cast<std::int64_t>(k.size() / n), static_cast<std::int64_t>(n) });
    qv_check(ok, "a row of connectivity per cell or wire");
    qv_assume(ok);
    for (std::size_t i = 0; i < k.size(); ++i) qv_check(item<std::size_t>(v, static_cast<std::int64_t>(i / n), static_cast<std::int64_t>(i % n)) == k[i], tag);
  };
  conn(c, own.get_connectivity(), own.get_num_points_per_cell(), "connectivity of the cells");
  conn(w, own.get_wires_connectivity(), static_cast<std::size_t>(own.get_order()), "connectivity of the wires");
}
template<int D, bool levelset> void mesh()
{
  bind();
  std::array<std::vector<real>, D> breaks;
  for (int d = 0; d < D; ++d) el(breaks, d) = d == 0 ? std::vector<real>{ 0.0, 0.375, 1.0 } : std::vector<real>{ 0.0, 1.0 };
  const auto f = std::make_shared<Plane<D>>();
  f->n(0) = 1.0;
  f->n(1) = D == 2 ? 2.0 : 3.0;
  f->c = qv::each("c", 0, 2) * 0.3125 + (D == 2 ? 0.25 : 0.1875);
  Plane<D>::current = f.get();
  ::algoim::QuadHook<D>::prepare = region<D>;
  ::algoim::QuadHook<D>::polynomial = polynomial<D>;
  ::algoim::QuadHook<D - 1>::polynomial = polynomial<D - 1>;
  const std::shared_ptr<UnfittedDomain<D>> dom = std::make_shared<UnfittedImplDomain<D>>(f, std::make_shared<const CartGridTP<D>>(breaks));
  // all cells, one of them (in an array of either kind, every second one of a longer one, or not), none
  const int cells = qv::each("cells", 0, 3), n = qv::each("n", 2, D == 2 ? 3 : 2);
  const bool merge = qv::each("merge", 0, 1) == 1;
  const std::vector<std::int64_t> t = cells == 1 ? std::vector<std::int64_t>{ 1, 0 } : cells == 2 ? std::vector<std::int64_t>{ 0 } : std::vector<std::int64_t>{};
  Kw kw{ { "unf_domain", wrap(dom) }, { "n_pts_dir", py::int_(n) }, { "merge_points", py::bool_(merge) } };
  if (cells > 0) kw.push_back({ "cells", py::array_(t, { static_cast<std::int64_t>(t.size()) }, 1) });
  const V m = made(levelset ? "create_reparameterization_levelset" : "create_reparameterization", {}, kw);
  const auto own = cells == 0 ? create_reparameterization<D, levelset>(*dom, n, merge) : create_reparameterization<D, levelset>(*dom, t, n, merge);
  if constexpr (levelset) same_mesh<D - 1, D>(m, *own);
  else same_mesh<D, D>(m, *own);
}
}// namespace
HARNESS(n_mesh2) { mesh<2, false>(); }
HARNESS(n_mesh3) { mesh<3, false>(); }
HARNESS(n_boundary2) { mesh<2, true>(); }
HARNESS(n_boundary3) { mesh<3, true>(); }
