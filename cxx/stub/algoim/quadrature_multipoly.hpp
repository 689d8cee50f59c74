#ifndef ALGOIM_QUADRATURE_MULTIPOLY_HPP
#define ALGOIM_QUADRATURE_MULTIPOLY_HPP
#include <algoim/bernstein.hpp>
#include <algoim/polyset.hpp>
#include <algoim/quadrature_general.hpp>
namespace algoim {
enum QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };
template<int N> struct ImplicitPolyQuadrature
{
  xarray<real, N> p;
  int k{ 0 };
  struct Base { int k{ 0 }; };
  explicit ImplicitPolyQuadrature(const xarray<real, N> &p_) : p(p_) {}
  template<typename F> void integrate(QuadStrategy, int, const F &f)
  {
    if (QuadHook<N>::polynomial != nullptr) QuadHook<N>::polynomial(p.data(), p.ext());
    for (std::size_t i = 0; i < QuadHook<N>::nodes.size(); ++i) f(QuadHook<N>::nodes[i], QuadHook<N>::weights[i]);
  }
  template<typename F> void integrate_surf(QuadStrategy, int, const F &f)
  { for (std::size_t i = 0; i < QuadHook<N>::nodes.size(); ++i) f(QuadHook<N>::nodes[i], QuadHook<N>::weights[i], uvector<real, N>(0.0)); }
};
}// namespace algoim
#endif
