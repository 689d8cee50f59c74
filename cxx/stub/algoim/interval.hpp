// Stand-in for algoim/interval.hpp: first-order Taylor intervals
// alpha + beta.y + [-eps, eps], |y_i| <= delta(i).
#ifndef ALGOIM_INTERVAL_HPP
#define ALGOIM_INTERVAL_HPP
#include <algoim/uvector.hpp>
namespace algoim {
template<int N> struct Interval
{
  real alpha{ 0.0 };
  uvector<real, N> beta;
  real eps{ 0.0 };
  Interval() = default;
  Interval(real a) : alpha(a), beta(), eps(0.0) {}
  Interval(real a, const uvector<real, N> &b, real e = 0.0) : alpha(a), beta(b), eps(e) {}
  static uvector<real, N> &delta() { static uvector<real, N> d; return d; }
  static real &delta(int i) { return delta()(i); }
  real maxDeviation() const
  { real s = eps; for (int i = 0; i < N; ++i) s += std::abs(beta(i)) * delta(i); return s; }
  bool uniformSign() const { return std::abs(alpha) > maxDeviation(); }
  int sign() const { return uniformSign() ? (alpha > 0.0 ? 1 : -1) : 0; }
  Interval &operator+=(const Interval &o) { alpha += o.alpha; beta += o.beta; eps += o.eps; return *this; }
  Interval &operator-=(const Interval &o) { alpha -= o.alpha; beta -= o.beta; eps += o.eps; return *this; }
  Interval &operator*=(const Interval &o)
  {
    real d0 = 0.0, d1 = 0.0;
    for (int i = 0; i < N; ++i) { d0 += std::abs(beta(i)) * delta(i); d1 += std::abs(o.beta(i)) * delta(i); }
    const real e = d0 * d1 + std::abs(alpha) * o.eps + std::abs(o.alpha) * eps + d0 * o.eps + d1 * eps + eps * o.eps;
    for (int i = 0; i < N; ++i) beta(i) = beta(i) * o.alpha + o.beta(i) * alpha;
    alpha *= o.alpha;
    eps = e;
    return *this;
  }
  Interval &operator/=(const Interval &o);
  Interval &operator*=(real c) { alpha *= c; beta *= c; eps *= std::abs(c); return *this; }
  Interval &operator/=(real c) { alpha /= c; beta /= c; eps /= std::abs(c); return *this; }
  // f(x) with |f''| <= M on the range
  static Interval taylor(const Interval &x, real f, real df, real M)
  {
    const real d = x.maxDeviation();
    Interval r(f, x.beta * df, std::abs(df) * x.eps + 0.5 * M * d * d);
    return r;
  }
};
template<int N> Interval<N> operator-(const Interval<N> &a) { return Interval<N>(-a.alpha, -a.beta, a.eps); }
#define ALGOIM_OP(op, opeq)                                                                          \
  template<int N> Interval<N> operator op(Interval<N> a, const Interval<N> &b) { a opeq b; return a; } \
  template<int N> Interval<N> operator op(Interval<N> a, real b) { a opeq Interval<N>(b); return a; } \
  template<int N> Interval<N> operator op(real a, const Interval<N> &b) { Interval<N> r(a); r opeq b; return r; }
ALGOIM_OP(+, +=)
ALGOIM_OP(-, -=)
ALGOIM_OP(*, *=)
ALGOIM_OP(/, /=)
#undef ALGOIM_OP
template<int N> Interval<N> sin(const Interval<N> &x) { return Interval<N>::taylor(x, std::sin(x.alpha), std::cos(x.alpha), 1.0); }
template<int N> Interval<N> cos(const Interval<N> &x) { return Interval<N>::taylor(x, std::cos(x.alpha), -std::sin(x.alpha), 1.0); }
template<int N> Interval<N> exp(const Interval<N> &x) { const real e = std::exp(x.alpha); return Interval<N>::taylor(x, e, e, e * std::exp(x.maxDeviation())); }
template<int N> Interval<N> sqrt(const Interval<N> &x)
{
  const real d = x.maxDeviation();
  const real lo = std::max(x.alpha - d, 1.0e-12);
  const real s = std::sqrt(std::max(x.alpha, 1.0e-12));
  return Interval<N>::taylor(x, s, 0.5 / s, 0.25 / (lo * std::sqrt(lo)));
}
template<int N> Interval<N> inv(const Interval<N> &x)
{
  const real d = x.maxDeviation();
  const real lo = std::max(std::abs(x.alpha) - d, 1.0e-12);
  return Interval<N>::taylor(x, 1.0 / x.alpha, -1.0 / (x.alpha * x.alpha), 2.0 / (lo * lo * lo));
}
template<int N> Interval<N> &Interval<N>::operator/=(const Interval<N> &o) { return *this *= inv(o); }
template<int N> bool operator<(const Interval<N> &a, const Interval<N> &b) { return a.alpha < b.alpha; }
template<int N> bool operator>(const Interval<N> &a, const Interval<N> &b) { return a.alpha > b.alpha; }
template<int N> bool operator<(const Interval<N> &a, real b) { return a.alpha < b; }
template<int N> bool operator>(const Interval<N> &a, real b) { return a.alpha > b; }
template<int N> Interval<N> abs(const Interval<N> &a) { return a.alpha < 0.0 ? -a : a; }
}// namespace algoim
#endif
