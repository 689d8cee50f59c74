// Contracts of the Python bindings of unfitted domains: every list of cells
// and facets is the one of the C++ domain of that name.
// LINK: *
#include "bind_world.h"
#include QV_WRAP(unf_domain.cpp)
namespace {
void bind()
{
  py::module_ m;
  qugar::wrappers::unf_domain(m);
}
template<int D> void direct_cells(const UnfittedImplDomain<D> &d, int which, const Ids *t, Ids &c)
{
  if (t == nullptr) {
    if (which == 0) d.get_full_cells(c);
    else if (which == 1) d.get_empty_cells(c);
    else d.get_cut_cells(c);
  } else {
    if (which == 0) d.get_full_cells(*t, c);
    else if (which == 1) d.get_empty_cells(*t, c);
    else d.get_cut_cells(*t, c);
  }
}
template<int D> void direct_facets(const UnfittedImplDomain<D> &d, int which, const Ids *t, const Facets *tf, Ids &c, Facets &f)
{
  if (t == nullptr) {
    if (which == 0) d.get_full_facets(c, f);
    else if (which == 1) d.get_empty_facets(c, f);
    else if (which == 2) d.get_cut_facets(c, f);
    else if (which == 3) d.get_unfitted_facets(c, f);
    else d.get_full_unfitted_facets(c, f);
  } else {
    if (which == 0) d.get_full_facets(*t, *tf, c, f);
    else if (which == 1) d.get_empty_facets(*t, *tf, c, f);
    else if (which == 2) d.get_cut_facets(*t, *tf, c, f);
    else if (which == 3) d.get_unfitted_facets(*t, *tf, c, f);
    else d.get_full_unfitted_facets(*t, *tf, c, f);
  }
}
// the frames of functions that are done are used again
[[gnu::noinline]] void other_calls()
{
  volatile std::int64_t x[64];
  for (int i = 0; i < 64; ++i) x[i] = -1 - i;
}
template<int D> void cells()
{
  bind();
  other_calls();
  const auto d = domain<D>(0);
  constexpr const char *names[3] = { "get_full_cells", "get_empty_cells", "get_cut_cells" };
  const int how = qv::each("targets", 0, 3);
  const Ids t = how == 1 ? Ids{ 2, 0, 1 } : how == 2 ? Ids{ 1, 2 } : Ids{};
  const V a = how == 0 ? V() : ids(t, "array");
  for (int which = 0; which < 3; ++which) {
    V p = wrap(d);
    Ids c;
    direct_cells<D>(*d, which, how == 0 ? nullptr : &t, c);
    const V got = how == 0 ? made(names[which], { p }) : made(names[which], { p }, { { "target_cell_ids", a } });
    p = V();
    same_items<std::int64_t>(got, c, "the cells of that status");
  }
}
template<int D> void facets()
{
  bind();
  other_calls();
  const auto d = domain<D>(qv::each("first", 0, 10));
  constexpr const char *names[5] = { "get_full_facets", "get_empty_facets", "get_cut_facets", "get_unf_bdry_facets", "get_full_unf_bdry_facets" };
  const int how = qv::each("targets", 0, 2);
  const Ids t = how == 1 ? Ids{ 2, 1, 1, 0, 1, 1, 0 } : Ids{};
  const Facets tf = how == 1 ? Facets{ 0, 3, 0, 1, 2, 1, 3 } : Facets{};
  const V ca = how == 0 ? V() : ids(t, "arrays"), fa = how == 0 ? V() : ids(tf, "arrays");
  for (int which = 0; which < 5; ++which) {
    V p = wrap(d);
    Ids c;
    Facets f;
    direct_facets<D>(*d, which, how == 0 ? nullptr : &t, &tf, c, f);
    const V got = how == 0 ? made(names[which], { p }) : made(names[which], { p }, { { "target_local_facet_ids", fa }, { "target_cell_ids", ca } });
    p = V();
    qv_check(got.kind == V::list && got.items.size() == 2, "cells and facets");
    same_items<std::int64_t>(got.items[0], c, "the cells of the facets of that status");
    same_items<int>(got.items[1], f, "the facets of that status");
  }
}
template<int D> void created()
{
  bind();
  other_calls();
  ::algoim::QuadHook<D>::prepare = prepare<D>;
  const std::shared_ptr<const ImplicitFunc<D>> f = std::make_shared<Phi<D>>();
  const std::shared_ptr<const CartGridTP<D>> g = row<D>();
  // all cells, those of an array, those of a list
  const int how = qv::each("how", 0, 2), n = qv::each("n", 0, 2);
  Ids t = n == 0 ? Ids{} : n == 1 ? Ids{ 1, 0 } : Ids{ 0, 2, 1 };
  Kw kw{ { "impl_func", wrap(f) }, { "grid", wrap(g) } };
  if (how == 1) kw.push_back({ "cells", ids(t, "array") });
  if (how == 2) {
    std::vector<V> l;
    for (const auto c : t) l.push_back(py::int_(c));
    kw.push_back({ "cells", py::list_(l) });
  }
  V p = made("create_unfitted_impl_domain", {}, kw);
  kw.clear();
  const auto &got = as<UnfittedImplDomain<D>>(p);
  const auto own = how == 0 ? UnfittedImplDomain<D>(f, g) : UnfittedImplDomain<D>(f, g, t);
  for (int which = 0; which < 3; ++which) {
    Ids a, b;
    direct_cells<D>(got, which, nullptr, a);
    direct_cells<D>(own, which, nullptr, b);
    qv_check(a == b, "the domain of these cells");
  }
  qv_check(got.get_impl_func() == f && got.get_grid() == g, "the domain of this function and grid");
  const V total = prop(p, "num_total_cells"), dim = prop(p, "dim"), has = prop(p, "has_facets_with_unf_bdry");
  qv_check(total.kind == V::integer && total.i == static_cast<std::int64_t>(own.get_num_total_cells()), "number of cells");
  qv_check(dim.kind == V::integer && dim.i == D, "dimension");
  qv_check(has.kind == V::boolean && has.b == own.has_facets_with_unf_bdry(), "facets with unfitted boundary");
  const V pg = prop(p, "grid"), pf = prop(p, "impl_func");
  p = V();
  qv_check(&as<CartGridTP<D>>(pg) == g.get(), "the grid of the domain");
  qv_check(&as<ImplicitFunc<D>>(pf) == f.get(), "the function of the domain");
  qv_check(as<ImplicitFunc<D>>(pf)(Point<D>(1.0)) == -0.5, "the function is alive");
}
template<int D> void unfitted()
{
  bind();
  other_calls();
  const auto d = domain<D>(qv::each("first", 0, 10));
  const V has = prop(wrap(d), "has_facets_with_unf_bdry");
  qv_check(has.kind == V::boolean && has.b == d->has_facets_with_unf_bdry(), "facets with unfitted boundary");
}
}// namespace
HARNESS(n_cells2) { cells<2>(); }
HARNESS(n_cells3) { cells<3>(); }
HARNESS(n_facets2) { facets<2>(); }
HARNESS(n_facets3) { facets<3>(); }
HARNESS(n_created2) { created<2>(); }
HARNESS(n_created3) { created<3>(); }
HARNESS(n_unfitted2) { unfitted<2>(); }
HARNESS(n_unfitted3) { unfitted<3>(); }
