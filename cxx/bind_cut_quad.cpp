// Contracts of the Python bindings of quadratures in unfitted domains: those
// of the C++ functions for the cells and facets of the arrays, as arrays that
// outlive the object that gave them.
// LINK: *
#include "bind_world.h"
#include QV_WRAP(cut_quad.cpp)
namespace {
void bind()
{
  py::module_ m;
  qugar::wrappers::cut_quad(m);
}
template<int D> V domain_value(const std::shared_ptr<UnfittedImplDomain<D>> &d) { return wrap(std::static_pointer_cast<UnfittedDomain<D>>(d)); }
template<int D> void cells()
{
  bind();
  const auto d = domain<D>(0);
  const int n = qv::each("n", 1, 2), how = qv::each("cells", 0, 1);
  const Ids t = how == 0 ? Ids{ 1, 2, 0, 1 } : Ids{};
  V q = made("create_quadrature", {}, { { "unf_domain", domain_value<D>(d) }, { "cells", ids(t, "array") }, { "n_pts_dir", py::int_(n) } });
  const auto own = create_quadrature<D>(*d, t, n);
  const V c = prop(q, "cells"), k = prop(q, "n_pts_per_entity"), x = prop(q, "points"), w = prop(q, "weights");
  q = V();
  same_items<std::int64_t>(c, own->cells, "cells of the rule");
  same_items<int>(k, own->n_pts_per_cell, "points per cell");
  same_points<D>(x, own->points, "points");
  same_items<real>(w, own->weights, "weights");
}
template<int D> void boundary()
{
  bind();
  const int first = qv::each("first", 0, 10);
  const auto d = domain<D>(first);
  const int n = 1 + first % 2, how = qv::each("cells", 0, 1), inc = qv::each("include", 0, 1), exc = qv::each("exclude", 0, 1);
  const Ids t = how == 0 ? Ids{ 1, 2, 0, 1 } : Ids{};
  V q = made("create_unfitted_bound_quadrature", {}, { { "unf_domain", domain_value<D>(d) }, { "cells", first == 0 ? ids(t, "array") : plain(t) }, { "exclude_ext_bdry", py::bool_(exc == 1) }, { "include_facet_unf_bdry", py::bool_(inc == 1) }, { "n_pts_dir", py::int_(n) } });
  const auto own = create_unfitted_bound_quadrature<D>(*d, t, n, inc == 1, exc == 1);
  const V c = prop(q, "cells"), k = prop(q, "n_pts_per_entity"), x = prop(q, "points"), w = prop(q, "weights"), nr = prop(q, "normals");
  q = V();
  same_items<std::int64_t>(c, own->cells, "cells of the boundary rule");
  same_items<int>(k, own->n_pts_per_cell, "points per cell of the boundary rule");
  same_points<D>(x, own->points, "points of the boundary");
  same_items<real>(w, own->weights, "weights of the boundary");
  same_points<D>(nr, own->normals, "normals of the boundary");
}
template<int D> void facets()
{
  bind();
  const int first = qv::each("first", 0, 10);
  const auto d = domain<D>(first);
  const int n = 1 + first % 2, how = qv::each("which", 0, 1), some = qv::each("facets", 0, 1);
  const Ids t = some == 0 ? Ids{ 1, 0, 1, 1, 2, 1 } : Ids{};
  const Facets f = some == 0 ? Facets{ 3, 1, 0, 2, 0, 1 } : Facets{};
  V q = made(how == 0 ? "create_facets_quadrature_interior_integral" : "create_facets_quadrature_exterior_integral", {}, { { "unf_domain", domain_value<D>(d) }, { "facets", first == 0 ? ids(f, "array") : plain(f) }, { "cells", first == 0 ? ids(t, "array") : plain(t) }, { "n_pts_dir", py::int_(n) } });
  const auto own = how == 0 ? create_facets_quadrature_interior_integral<D>(*d, t, f, n) : create_facets_quadrature_exterior_integral<D>(*d, t, f, n);
  const V c = prop(q, "cells"), l = prop(q, "facets"), k = prop(q, "n_pts_per_entity"), x = prop(q, "points"), w = prop(q, "weights");
  q = V();
  same_items<std::int64_t>(c, own->cells, "cells of the facet rule");
  same_items<int>(l, own->local_facet_ids, "facets of the rule");
  same_items<int>(k, own->n_pts_per_facet, "points per facet");
  same_points<D - 1>(x, own->points, "points of the facets");
  same_items<real>(w, own->weights, "weights of the facets");
}
}// namespace
HARNESS(n_cells2) { cells<2>(); }
HARNESS(n_cells3) { cells<3>(); }
HARNESS(n_boundary2) { boundary<2>(); }
HARNESS(n_boundary3) { boundary<3>(); }
HARNESS(n_facets2) { facets<2>(); }
HARNESS(n_facets3) { facets<3>(); }
