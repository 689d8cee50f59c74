// Domains of three cells in a row (inside, cut, outside) whose facets have
// whatever status the harness says, for the harnesses of the bindings.
#pragma once
#include "bindings.h"
#include <qugar/bbox.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/cut_quadrature.hpp>
#include <qugar/impl_quadrature.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/quadrature.hpp>
#include <qugar/unfitted_domain.hpp>
#include <algoim/quadrature_general.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
using Ids = std::vector<std::int64_t>;
using Facets = std::vector<int>;
// negative for x < 1, positive for x > 2
template<int D> struct Phi final : ImplicitFunc<D>
{
  using I = ::algoim::Interval<D>;
  real operator()(const Point<D> &x) const override { return x(0) - 1.5; }
  I operator()(const Point<D, I> &x) const override
  {
    const real a = x(0).alpha, h = I::delta(0);
    if (a + h <= 1.0) return I(-1.0);
    if (a - h >= 2.0) return I(1.0);
    return I(0.0, ::algoim::uvector<real, D>(0.0), 1.0);
  }
  Vector<real, D> grad(const Point<D> &) const override
  {
    Vector<real, D> g(0.0);
    g(0) = 3.0;
    g(1) = -4.0;
    return g;
  }
  Vector<I, D> grad(const Point<D, I> &) const override { return Vector<I, D>(I(0.0)); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
};
template<int D> void prepare(int dim, int, const ::algoim::uvector<real, D> &, const ::algoim::uvector<real, D> &)
{
  using H = ::algoim::QuadHook<D>;
  H::nodes.clear();
  H::weights.clear();
  H::nodes.push_back(::algoim::uvector<real, D>(0.5));
  H::weights.push_back(dim < 0 ? 0.375 : 0.25);
}
template<int D> void integral(bool surface, const ::algoim::uvector<bool, D> &free, const ::algoim::PsiCode<D> &, const ::algoim::uvector<real, D> &, const ::algoim::uvector<real, D> &, int n)
{
  using H = ::algoim::QuadHook<D>;
  H::nodes.clear();
  H::weights.clear();
  bool facet = false;
  for (int d = 0; d < D; ++d) facet = facet || !free(d);
  const int k = facet ? 1 : surface ? 2 : 3;
  for (int i = 0; i < k + n; ++i) {
    ::algoim::uvector<real, D> x(0.25 + 0.0625 * i);
    x(D - 1) = 0.5 - 0.03125 * i;
    H::nodes.push_back(x);
    H::weights.push_back(0.125 * k + 0.5 * i);
  }
}
template<int D> struct Known final : UnfittedImplDomain<D>
{
  Known(std::shared_ptr<const ImplicitFunc<D>> f, std::shared_ptr<const CartGridTP<D>> g, int first) : UnfittedImplDomain<D>(f, g)
  {
    auto &s = this->facets_status_[1];
    for (int i = 0; i < 2 * D; ++i) s[static_cast<std::size_t>(i)] = static_cast<ImmersedFacetStatus>((first + 3 * i) % 11);
  }
};
template<int D> std::shared_ptr<const CartGridTP<D>> row()
{
  std::array<std::vector<real>, D> b;
  for (int d = 0; d < D; ++d)
    for (int i = 0; i <= (d == 0 ? 3 : 1); ++i) b[static_cast<std::size_t>(d)].push_back(i);
  return std::make_shared<const CartGridTP<D>>(b);
}
template<int D> std::shared_ptr<UnfittedImplDomain<D>> domain(int first)
{
  ::algoim::QuadHook<D>::prepare = prepare<D>;
  ::algoim::QuadHook<D>::integral = integral<D>;
  return std::make_shared<Known<D>>(std::make_shared<Phi<D>>(), row<D>(), first);
}
// array of ids: contiguous or not, of 64 or 32 bits
template<typename C> V ids(const C &x, const char *n)
{
  const int how = qv::each(n, 0, 3);
  const auto s = static_cast<std::int64_t>(x.size());
  if (how < 2) return py::array_(std::vector<std::int64_t>(x.begin(), x.end()), { s }, how);
  return py::array_(std::vector<int>(x.begin(), x.end()), { s }, how - 2);
}
template<typename C> V plain(const C &x) { return py::array_(x, { static_cast<std::int64_t>(x.size()) }); }
}// namespace
