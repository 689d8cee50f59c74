// Contract vocabulary for C++ harnesses. The same harness is (1) executed
// symbolically over the LLVM IR of the real sources, (2) compiled natively to
// replay counterexamples and to search for failing inputs.
#pragma once
#include <cstdint>
#include <cmath>
#include <algorithm>
extern "C" {
double qv_real(const char *name);
std::int64_t qv_int(const char *name, std::int64_t lo, std::int64_t hi);
std::int64_t qv_each(const char *name, std::int64_t lo, std::int64_t hi);
bool qv_bool(const char *name);
void qv_assume(bool c);
void qv_check(bool c, const char *tag);
void qv_check_eq(double a, double b, const char *tag);
// the engine differentiates `value` with respect to the input `var`
void qv_check_deriv(double value, double var, double der, const char *tag);
bool qv_symbolic();
// concrete values: keeps the exact arithmetic of the engine short (140 bits)
double qv_trunc(double x);
}
#define HARNESS(name) extern "C" void h_##name()
namespace qv {
// name + index without string formatting
inline const char *idx(const char *base, int i)
{
  static thread_local char buf[32][24];
  static thread_local int k = 0;
  char *b = buf[k];
  k = (k + 1) % 32;
  int n = 0;
  while (base[n] != 0 && n < 16) { b[n] = base[n]; ++n; }
  if (i >= 10) b[n++] = static_cast<char>('0' + (i / 10) % 10);
  b[n++] = static_cast<char>('0' + i % 10);
  b[n] = 0;
  return b;
}
inline const char *idx2(const char *base, int i, int j) { return idx(idx(base, i), j); }
inline int integer(const char *name, int lo, int hi) { return static_cast<int>(qv_int(name, lo, hi)); }
// an integer in [lo, hi] of which every value is looked at separately
inline int each(const char *name, int lo, int hi)
{
  return static_cast<int>(qv_each(name, lo, hi));
}
template<typename V, int N> V vec(const char *base)
{
  V v;
  for (int i = 0; i < N; ++i) v(i) = qv_real(idx(base, i));
  return v;
}
template<typename V, int N> V ivec(const char *base, int lo, int hi)
{
  V v;
  for (int i = 0; i < N; ++i) v(i) = integer(idx(base, i), lo, hi);
  return v;
}
// grad(i) == d f / d x(i)
template<int N, typename F, typename X, typename G> void check_gradient(const F &f, const X &x, const G &g, const char *tag)
{
  if (qv_symbolic()) {
    const double v = f(x);
    for (int i = 0; i < N; ++i) qv_check_deriv(v, x(i), g(i), tag);
  } else {
    for (int i = 0; i < N; ++i) {
      double s = 0.0;
      const double h = 1.0e-3;
      const double c[4] = { 4.0 / 5.0, -1.0 / 5.0, 4.0 / 105.0, -1.0 / 280.0 };
      double mag = 0.0;
      for (int k = 1; k <= 4; ++k) {
        X p(x), q(x);
        p(i) = x(i) + k * h;
        q(i) = x(i) - k * h;
        const double fp = f(p), fq = f(q);
        s += c[k - 1] * (fp - fq);
        mag = std::max(mag, std::abs(fp));
      }
      s /= h;
      // difference quotient: a tolerance far below any real mistake
      if (std::abs(s - g(i)) > 1.0e-5 * (1.0 + std::abs(s) + mag)) qv_check(false, tag);
      else qv_check(true, tag);
    }
  }
}
}// namespace qv
