#ifndef ALGOIM_POLYSET_HPP
#define ALGOIM_POLYSET_HPP
#include <algoim/bernstein.hpp>
#include <algoim/booluarray.hpp>
#include <vector>
namespace algoim {
template<int N, int E> struct PolySet
{
  std::vector<std::vector<real>> buf;
  std::vector<uvector<int, N>> exts;
  std::vector<booluarray<N, E>> masks;
  std::size_t count() const { return exts.size(); }
  xarray<real, N> poly(std::size_t i) { return xarray<real, N>(buf[i].data(), exts[i]); }
  xarray<real, N> poly(std::size_t i) const { return xarray<real, N>(const_cast<real *>(buf[i].data()), exts[i]); }
  const booluarray<N, E> &mask(std::size_t i) const { return masks[i]; }
  void push_back(const xarray<real, N> &p, const booluarray<N, E> &m)
  { buf.emplace_back(p.data(), p.data() + p.size()); exts.push_back(p.ext()); masks.push_back(m); }
};
// Elimination of polynomials that are linear along the axis (all a harness may use):
// their zeros cross the hyperplanes of the sides, and one another at their resultants.
namespace detail {
  template<int N, int E> uvector<real, N> score_estimate(PolySet<N, E> &phi, uvector<bool, N> &d)
  {
    d = uvector<bool, N>(false);
    uvector<real, N> score(0.0);
    real all = 0.0;
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto g = bernstein::evalBernsteinPolyGradient<N>(phi.poly(i), uvector<real, N>(0.5));
      for (int k = 0; k < N; ++k) {
        const real a = g(k) < 0.0 ? -g(k) : g(k);
        score(k) += a;
        all += a;
      }
    }
    return all > 0.0 ? score : uvector<real, N>(1.0);
  }
  template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &p, const booluarray<N, E> &m)
  { return booluarray<N, E>(m.any && bernstein::uniformSign<N>(p) == 0); }
  template<int N, int E> bool maskEmpty(const booluarray<N, E> &m) { return !m.any; }
  template<int N, int E> void add_if_nonzero(PolySet<N, E> &out, std::vector<real> &c, const uvector<int, N> &ext)
  {
    const xarray<real, N> p(c.data(), ext);
    const auto m = nonzeroMask(p, booluarray<N, E>(true));
    if (!maskEmpty(m)) out.push_back(p, m);
  }
  template<int N> std::vector<real> side(const xarray<real, N> &p, int k, int i, uvector<int, N - 1> &ext)
  {
    int st = 1;
    for (int d = k + 1; d < N; ++d) st *= p.ext(d);
    for (int d = 0, e = 0; d < N; ++d)
      if (d != k) ext(e++) = p.ext(d);
    std::vector<real> c;
    const int m = p.ext(k), blocks = p.size() / (m * st);
    for (int b = 0; b < blocks; ++b)
      for (int s = 0; s < st; ++s) c.push_back(p[(b * m + i) * st + s]);
    return c;
  }
  inline real choose(int n, int k)
  {
    real c = 1.0;
    for (int i = 0; i < k; ++i) c = c * static_cast<real>(n - i) / static_cast<real>(i + 1);
    return c;
  }
  // adds s * a * b to c
  template<int N> void add_product(const std::vector<real> &a, const uvector<int, N> &ea, const std::vector<real> &b, const uvector<int, N> &eb, real s, std::vector<real> &c, uvector<int, N> &ec)
  {
    int n = 1;
    for (int d = 0; d < N; ++d) {
      ec(d) = ea(d) + eb(d) - 1;
      n *= ec(d);
    }
    c.resize(static_cast<std::size_t>(n));
    for (int i = 0; i < static_cast<int>(a.size()); ++i)
      for (int j = 0; j < static_cast<int>(b.size()); ++j) {
        real w = s;
        int at = 0, st = 1;
        for (int d = N - 1, x = i, y = j; d >= 0; --d) {
          const int p = x % ea(d), q = y % eb(d);
          x /= ea(d);
          y /= eb(d);
          w *= choose(ea(d) - 1, p) * choose(eb(d) - 1, q) / choose(ec(d) - 1, p + q);
          at += (p + q) * st;
          st *= ec(d);
        }
        c[static_cast<std::size_t>(at)] += w * a[static_cast<std::size_t>(i)] * b[static_cast<std::size_t>(j)];
      }
  }
  template<int N, int E> void eliminate_axis(PolySet<N, E> &phi, int k, PolySet<N - 1, E> &out)
  {
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto p = phi.poly(i);
      uvector<int, N - 1> ext;
      for (int s = 0; s < 2 && (s == 0 || p.ext(k) > 1); ++s) {
        auto c = side<N>(p, k, s == 0 ? 0 : p.ext(k) - 1, ext);
        add_if_nonzero<N - 1, E>(out, c, ext);
      }
      for (std::size_t j = 0; j < i; ++j) {
        const auto q = phi.poly(j);
        if (p.ext(k) != 2 || q.ext(k) != 2) continue;
        uvector<int, N - 1> ep, eq, ec;
        std::vector<real> c;
        const auto p0 = side<N>(p, k, 0, ep), p1 = side<N>(p, k, 1, ep), q0 = side<N>(q, k, 0, eq), q1 = side<N>(q, k, 1, eq);
        add_product<N - 1>(p0, ep, q1, eq, 1.0, c, ec);
        add_product<N - 1>(p1, ep, q0, eq, -1.0, c, ec);
        add_if_nonzero<N - 1, E>(out, c, ec);
      }
    }
  }
  template<int N, int E> bool lineIntersectsMask(const booluarray<N, E> &m, const uvector<real, N - 1> &, int) { return m.any; }
  template<int N, int E> bool pointWithinMask(const booluarray<N, E> &m, const uvector<real, N> &) { return m.any; }
}// namespace detail
}// namespace algoim
#endif
