// Stand-in for algoim/quadrature_general.hpp. The geometric work (which points
// lie inside) is algoim's; here a hook chosen by the harness supplies it.
#ifndef ALGOIM_QUADRATURE_GENERAL_HPP
#define ALGOIM_QUADRATURE_GENERAL_HPP
#include <algoim/hyperrectangle.hpp>
#include <algoim/interval.hpp>
#include <vector>
namespace algoim {
template<int N> struct PsiCode
{
  unsigned bits{ 0 };
  PsiCode() = default;
  PsiCode(const uvector<int, N> &sides, int sign)
  { for (int d = 0; d < N; ++d) if (sides(d) == 1) bits |= 1u << d; if (sign == 1) bits |= 1u << N; else if (sign == -1) bits |= 1u << (N + 1); }
  PsiCode(const PsiCode &c, int k, int side, int sign)
  {
    bits = c.bits & ((1u << N) - 1u) & ~(1u << k);
    if (side == 1) bits |= 1u << k;
    if (sign == 1) bits |= 1u << N; else if (sign == -1) bits |= 1u << (N + 1);
  }
  int side(int d) const { return static_cast<int>((bits >> d) & 1u); }
  int sign() const { return (bits & (1u << N)) != 0 ? 1 : ((bits & (1u << (N + 1))) != 0 ? -1 : 0); }
};
// What the harness lets algoim produce: nodes in the unit cube of the free directions.
template<int N> struct QuadHook
{
  static inline std::vector<uvector<real, N>> nodes{};
  static inline std::vector<real> weights{};
  // asked first, if set, to fill nodes and weights for a region and (dim >= 0) one of its sides
  static inline void (*prepare)(int dim, int side, const uvector<real, N> &lo, const uvector<real, N> &hi){ nullptr };
  // asked first, if set, to fill nodes and weights for where a polynomial over the unit box, with its coefficients (first direction slowest), is negative
  static inline void (*polynomial)(const real *coefs, const uvector<int, N> &order){ nullptr };
  // asked first, if set, to fill nodes and weights for an integral over the free directions of a region
  static inline void (*integral)(bool surface, const uvector<bool, N> &free, const PsiCode<N> &psi, const uvector<real, N> &lo, const uvector<real, N> &hi, int n){ nullptr };
};
// What the harness lets algoim find: all roots in [a, b] along a direction (if set).
template<int N> struct RootHook
{
  static inline void (*find)(const uvector<real, N> &x, int dim, real a, real b, std::vector<real> &roots){ nullptr };
};
template<int N> struct QuadratureRule
{
  struct Node { uvector<real, N> x; real w; };
  std::vector<Node> nodes;
  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.push_back({ x, w }); }
  real sumWeights() const { real s = 0.0; for (const auto &n : nodes) s += n.w; return s; }
};
template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  template<typename Psi>
  ImplicitIntegral(const Phi &, F &f, const uvector<bool, N> &free, const Psi &psi, int, const HyperRectangle<real, N> &xr, int n)
  {
    if (QuadHook<N>::integral != nullptr) QuadHook<N>::integral(S, free, psi[0], xr.min(), xr.max(), n);
    for (std::size_t i = 0; i < QuadHook<N>::nodes.size(); ++i) {
      uvector<real, N> x;
      real vol = 1.0;
      for (int d = 0; d < N; ++d) {
        if (free(d)) { x(d) = xr.min(d) + xr.extent(d) * QuadHook<N>::nodes[i](d); vol *= xr.extent(d); }
        else { x(d) = xr.side(psi[0].side(d))(d); }
      }
      f.evalIntegrand(x, QuadHook<N>::weights[i] * vol);
    }
  }
};
template<int N, typename F>
QuadratureRule<N> quadGen(const F &, const HyperRectangle<real, N> &xr, int dim, int side, int)
{
  QuadratureRule<N> q;
  if (QuadHook<N>::prepare != nullptr) QuadHook<N>::prepare(dim, side, xr.min(), xr.max());
  for (std::size_t i = 0; i < QuadHook<N>::nodes.size(); ++i) {
    uvector<real, N> x;
    real vol = 1.0;
    for (int d = 0; d < N; ++d) {
      if (d == dim) x(d) = xr.side(side)(d);
      else { x(d) = xr.min(d) + xr.extent(d) * QuadHook<N>::nodes[i](d); vol *= xr.extent(d); }
    }
    q.nodes.push_back({ x, QuadHook<N>::weights[i] * vol });
  }
  return q;
}
namespace detail {
  template<typename F, int N>
  void rootFind(const F &phi, const uvector<real, N> &x, int dim, real a, real b, std::vector<real> &roots, bool)
  {
    if (RootHook<N>::find != nullptr) {
      RootHook<N>::find(x, dim, a, b, roots);
      return;
    }
    // Sign changes on a fine uniform sampling, refined by bisection.
    const int n = 64;
    uvector<real, N> y(x);
    real t0 = a;
    y(dim) = t0;
    real f0 = phi(y);
    for (int i = 1; i <= n; ++i) {
      const real t1 = a + (b - a) * i / n;
      y(dim) = t1;
      const real f1 = phi(y);
      if ((f0 < 0.0) != (f1 < 0.0)) {
        real l = t0, r = t1;
        for (int k = 0; k < 80; ++k) { const real m = 0.5 * (l + r); y(dim) = m; if ((phi(y) < 0.0) == (f0 < 0.0)) l = m; else r = m; }
        roots.push_back(0.5 * (l + r));
      }
      t0 = t1;
      f0 = f1;
    }
  }
  template<bool S> void determineSigns(bool dpsi_positive, int sign, int &bottom, int &top)
  {
    if (S) { bottom = top = 0; bottom = dpsi_positive ? -1 : 1; top = -bottom; }
    else if (sign == 0) { bottom = top = 0; }
    else { bottom = (dpsi_positive ? -1 : 1) == sign ? sign : 0; top = (dpsi_positive ? 1 : -1) == sign ? sign : 0; }
  }
}// namespace detail
}// namespace algoim
#endif
