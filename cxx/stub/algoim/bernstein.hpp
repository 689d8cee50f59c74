// Stand-in for algoim/bernstein.hpp (xarrays are indexed last direction fastest,
// so xarray direction 0 is the slowest).
#ifndef ALGOIM_BERNSTEIN_HPP
#define ALGOIM_BERNSTEIN_HPP
#include <algoim/binomial.hpp>
#include <algoim/xarray.hpp>
#include <vector>
namespace algoim::bernstein {
inline real modifiedChebyshevNode(int i, int n)
{
  if (i == 0) return 0.0;
  if (i == n - 1) return 1.0;
  return 0.5 - 0.5 * std::cos(static_cast<real>(i) * 3.14159265358979323846 / static_cast<real>(n - 1));
}
template<int N> real evalBernsteinPoly(const xarray<real, N> &a, const uvector<real, N> &x)
{
  std::vector<real> w(a.data(), a.data() + a.size());
  int n = a.size();
  for (int d = N - 1; d >= 0; --d) {
    const int m = a.ext(d);
    std::vector<real> o;
    for (int b = 0; b < n / m; ++b) {
      std::vector<real> c(w.begin() + b * m, w.begin() + (b + 1) * m);
      for (int l = m - 1; l > 0; --l)
        for (int i = 0; i < l; ++i) c[i] = c[i] * (1.0 - x(d)) + c[i + 1] * x(d);
      o.push_back(c[0]);
    }
    w = o;
    n /= m;
  }
  return w[0];
}
template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &a, const uvector<real, N> &x)
{
  uvector<real, N> g;
  for (int k = 0; k < N; ++k) {
    if (a.ext(k) < 2) { g(k) = 0.0; continue; }
    int st = 1;
    for (int d = k + 1; d < N; ++d) st *= a.ext(d);
    const int m = a.ext(k);
    std::vector<real> w;
    const int blocks = a.size() / (m * st);
    for (int b = 0; b < blocks; ++b)
      for (int i = 0; i < m - 1; ++i)
        for (int s = 0; s < st; ++s)
          w.push_back((a[(b * m + i + 1) * st + s] - a[(b * m + i) * st + s]) * static_cast<real>(m - 1));
    uvector<int, N> e(a.ext());
    e(k) -= 1;
    g(k) = evalBernsteinPoly<N>(xarray<real, N>(w.data(), e), x);
  }
  return g;
}
// In-place restriction to the box [a, b], per xarray direction (de Casteljau).
template<int N> void deCasteljau(xarray<real, N> &x, const real *a, const real *b)
{
  int st = x.size();
  for (int k = 0; k < N; ++k) {
    const int m = x.ext(k);
    st /= m;
    const int blocks = x.size() / (m * st);
    for (int bl = 0; bl < blocks; ++bl)
      for (int s = 0; s < st; ++s) {
        real *c = x.data() + bl * m * st + s;
        // coefficient i = blossom(a,..,a,b,..,b) with i arguments b
        std::vector<real> orig(static_cast<std::size_t>(m));
        for (int i = 0; i < m; ++i) orig[i] = c[i * st];
        for (int i = 0; i < m; ++i) {
          std::vector<real> w(orig);
          for (int l = m - 1; l > 0; --l) {
            const real t = (m - 1 - l) < i ? b[k] : a[k];
            for (int j = 0; j < l; ++j) w[j] = w[j] * (1.0 - t) + w[j + 1] * t;
          }
          c[i * st] = w[0];
        }
      }
  }
}
// 1, -1: all coefficients of that sign; 0: undecided
template<int N> int uniformSign(const xarray<real, N> &a)
{
  bool pos = true, neg = true;
  for (int i = 0; i < a.size(); ++i) { pos = pos && a[i] > 0.0; neg = neg && a[i] < 0.0; }
  return pos ? 1 : (neg ? -1 : 0);
}
// the polynomial along direction k through a point of the others
template<int N> void collapseAlongAxis(const xarray<real, N> &a, const uvector<real, N - 1> &x, int k, real *out)
{
  int st = 1;
  for (int d = k + 1; d < N; ++d) st *= a.ext(d);
  const int m = a.ext(k), blocks = a.size() / (m * st);
  uvector<int, N - 1> e;
  for (int d = 0, i = 0; d < N; ++d)
    if (d != k) e(i++) = a.ext(d);
  for (int i = 0; i < m; ++i) {
    std::vector<real> w;
    for (int b = 0; b < blocks; ++b)
      for (int s = 0; s < st; ++s) w.push_back(a[(b * m + i) * st + s]);
    if constexpr (N == 1) out[i] = w[0];
    else out[i] = evalBernsteinPoly<N - 1>(xarray<real, N - 1>(w.data(), e), x);
  }
}
// of constants, linear and quadratic polynomials
inline int bernsteinUnitIntervalRealRoots(const real *c, int n, real *r)
{
  const auto keep = [r](int k, real t) {
    if (0.0 <= t && t <= 1.0) { r[k] = t; ++k; }
    return k;
  };
  if (n == 2) return c[0] == c[1] ? 0 : keep(0, c[0] / (c[0] - c[1]));
  if (n == 3) {
    const real a = c[0] - 2.0 * c[1] + c[2], b = 2.0 * (c[1] - c[0]);
    if (a == 0.0) return b == 0.0 ? 0 : keep(0, -c[0] / b);
    const real disc = b * b - 4.0 * a * c[0];
    if (disc < 0.0) return 0;
    const real s = std::sqrt(disc);
    const int k = keep(0, (-b - s) / (2.0 * a));
    return disc == 0.0 ? k : keep(k, (-b + s) / (2.0 * a));
  }
  return 0;
}
}// namespace algoim::bernstein
#endif
