// Contracts of the C interface that generated kernels tabulate basix's elements
// through: elements are created once, handles stay valid, tables are the ones of
// the element that was registered, refusals are negative codes, no exception.
// EXCEPTIONS
#include "qvc.h"
#include "repo.h"
#include QV_STR(QV_REPO/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp)
namespace {
using Key = std::array<int, 6>;
template<typename T> struct Api;
template<> struct Api<double>
{
  static int reg(const Key &k) { return qugar_register_element_f64(k[0], k[1], k[2], k[3], k[4], k[5]); }
  static int shape(int h, int nd, int n, long *o) { return qugar_tabulate_shape_f64(h, nd, n, o); }
  static int tab(int h, int nd, const double *x, int n, int g, double *b, long c) { return qugar_tabulate_f64(h, nd, x, n, g, b, c); }
  static double *scratch(long n) { return qugar_get_scratch_f64(n); }
  static int size() { return qugar_registry_size_f64(); }
};
template<> struct Api<float>
{
  static int reg(const Key &k) { return qugar_register_element_f32(k[0], k[1], k[2], k[3], k[4], k[5]); }
  static int shape(int h, int nd, int n, long *o) { return qugar_tabulate_shape_f32(h, nd, n, o); }
  static int tab(int h, int nd, const float *x, int n, int g, float *b, long c) { return qugar_tabulate_f32(h, nd, x, n, g, b, c); }
  static float *scratch(long n) { return qugar_get_scratch_f32(n); }
  static int size() { return qugar_registry_size_f32(); }
};
Key any_key(const char *base)
{
  Key k;
  for (int i = 0; i < 5; ++i) k[static_cast<std::size_t>(i)] = qv::integer(qv::idx(base, i), -100, 100);
  k[5] = qv::integer(qv::idx(base, 5), 0, 1);
  return k;
}
bool same(const Key &a, const Key &b)
{
  bool s = true;
  for (std::size_t i = 0; i < 6; ++i) s = s & (a[i] == b[i]);
  return s;
}
bool refused(const Key &k) { return k[2] < 0 || k[2] > 9; }
// any sequence of N registrations of any elements: one element per key, the
// handles of different keys differ, and the refusals leave no trace
template<typename T, int N> void registering()
{
  Key k[N];
  int h[N];
  const char *names[] = { "a", "b", "c" };
  int expected = 0;
  qugar_shim_reset();
  basix::qv_stub::created = 0;
  for (int i = 0; i < N; ++i) {
    k[i] = any_key(names[i]);
    h[i] = Api<T>::reg(k[i]);
    bool again = false;
    for (int j = 0; j < i; ++j)
      if (!refused(k[i]) && same(k[i], k[j])) {
        again = true;
        qv_check(h[i] == h[j], "elements registered again keep their handle");
      }
    if (refused(k[i])) qv_check(h[i] < 0, "elements that basix refuses get a negative code");
    if (!again && !refused(k[i])) {
      qv_check(h[i] >= 0, "elements get handles");
      ++expected;
      for (int j = 0; j < i; ++j)
        if (!refused(k[j])) qv_check(h[i] != h[j], "different elements get different handles");
    }
    qv_check(Api<T>::size() == expected, "one element is kept per description");
  }
  qv_check(basix::qv_stub::created == expected, "elements are created once");
}
// the table of each of N elements after all of them were registered
template<typename T, int N, int P> void tables()
{
  Key k[N];
  int h[N];
  const char *names[] = { "a", "b", "c" };
  qugar_shim_reset();
  for (int i = 0; i < N; ++i) {
    k[i] = any_key(names[i]);
    qv_assume(k[i][2] >= 0 && k[i][2] <= 9);
    for (int j = 0; j < i; ++j) qv_assume(!same(k[i], k[j]));
    h[i] = Api<T>::reg(k[i]);
  }
  const int nd = qv::each("nd", 0, 2), np = qv::each("points", 0, P);
  std::vector<T> x(static_cast<std::size_t>(2 * np) + 1);
  for (int i = 0; i < 2 * np; ++i) x[static_cast<std::size_t>(i)] = static_cast<T>(qv_real(qv::idx("x", i)));
  const int which = qv::each("which", 0, N - 1);
  long s[4] = { -1, -1, -1, -1 };
  qv_check(Api<T>::shape(h[which], nd, np, s) == 0, "shapes of tables");
  const std::size_t d = basix::qv_stub::derivatives(2, static_cast<std::size_t>(nd));
  qv_check(s[0] == static_cast<long>(d) && s[1] == np && s[2] == 3 && s[3] == 2, "tables have a row per derivative, point, function and component");
  const long need = static_cast<long>(d) * np * 6;
  const int extra = qv::each("extra", -1, 1);
  if (need + extra < 0) return;
  const T mark = static_cast<T>(-12345);
  std::vector<T> out(static_cast<std::size_t>(need + 2), mark);
  const int r = Api<T>::tab(h[which], nd, x.data(), np, 2, out.data(), need + extra);
  if (extra < 0) {
    qv_check(r < 0, "tables that do not fit are refused");
    for (const auto v : out) qv_check(v == mark, "refused tables are not written");
    return;
  }
  qv_check(r == 0, "tables of registered elements are computed");
  const basix::FiniteElement<T> e(k[which]);
  std::size_t at = 0;
  for (std::size_t a = 0; a < d; ++a)
    for (int p = 0; p < np; ++p)
      for (std::size_t f = 0; f < 3; ++f)
        for (std::size_t v = 0; v < 2; ++v)
          qv_check_eq(out[at++], e.value(a, f, v, &x[static_cast<std::size_t>(2 * p)]), "tables are the ones of the element registered");
  for (; at < out.size(); ++at) qv_check(out[at] == mark, "nothing is written after the table");
}
// anything that does not exist, or that basix throws for
template<typename T> void refusals()
{
  qugar_shim_reset();
  const Key good{ 1, 2, 3, 4, 5, 0 };
  const int n = qv::each("registered", 0, 2);
  for (int i = 0; i < n; ++i) {
    Key k = good;
    k[3] += i;
    Api<T>::reg(k);
  }
  const int h = qv::integer("handle", -1000, 1000);
  const int nd = qv::each("nd", 0, 5), gdim = qv::each("gdim", 1, 3);
  T x[6] = { 0, 0, 0, 0, 0, 0 };
  std::vector<T> out(10 * 2 * 6 + 1, static_cast<T>(-1));
  long s[4] = { -7, -7, -7, -7 };
  const int a = Api<T>::shape(h, nd, 2, s), b = Api<T>::tab(h, nd, x, 2, gdim, out.data(), 10 * 2 * 6);
  const bool valid = 0 <= h && h < n;
  qv_check((a == 0) == (valid && nd <= 3) && a <= 0, "shapes exist for registered elements and the derivatives that basix has");
  qv_check((b == 0) == (valid && nd <= 3 && gdim == 2) && b <= 0, "tables exist for registered elements and what basix accepts");
  if (a != 0)
    for (long v : s) qv_check(v == -7, "refused shapes are not written");
}
// working memory
template<typename T> void scratch()
{
  const long n = qv::each("first", 0, 3), m = qv::each("second", 0, 3);
  T *p = Api<T>::scratch(n);
  for (long i = 0; i < n; ++i) p[i] = static_cast<T>(qv_real(qv::idx("v", static_cast<int>(i))));
  T *q = Api<T>::scratch(m);
  if (m <= n) qv_check(p == q, "working memory stays where it is while it suffices");
  for (long i = 0; i < m; ++i) q[i] = static_cast<T>(i);
  for (long i = 0; i < m; ++i) qv_check(q[i] == static_cast<T>(i), "working memory has the size asked for");
  qv_check(Api<T>::scratch(-1) == nullptr, "memory that cannot be had is a null pointer");
}
}// namespace
HARNESS(n_register2) { registering<double, 2>(); }
HARNESS(n_register2_f32) { registering<float, 2>(); }
HARNESS(n_register3) { registering<double, 3>(); }
HARNESS(n_tables) { tables<double, 1, 2>(); }
HARNESS(n_tables2) { tables<double, 2, 1>(); }
HARNESS(n_tables_f32) { tables<float, 1, 2>(); }
HARNESS(refusals) { refusals<double>(); }
HARNESS(refusals_f32) { refusals<float>(); }
HARNESS(n_scratch) { scratch<double>(); }
HARNESS(n_scratch_f32) { scratch<float>(); }
// the two kinds of numbers do not share elements
HARNESS(n_kinds)
{
  qugar_shim_reset();
  const Key k = any_key("a"), l = any_key("b");
  qv_assume(!refused(k) && !refused(l));
  const int h = Api<double>::reg(k), g = Api<float>::reg(l);
  qv_check(h == 0 && g == 0 && qugar_registry_size_f64() == 1 && qugar_registry_size_f32() == 1, "elements of single and double precision are kept apart");
  qugar_shim_reset();
  qv_check(qugar_registry_size_f64() == 0 && qugar_registry_size_f32() == 0, "the registry is emptied");
  qv_check(Api<double>::reg(l) == 0 && qugar_registry_size_f64() == 1, "elements are registered again after emptying the registry");
  long s[4];
  qv_check(qugar_tabulate_shape_f32(0, 0, 1, s) < 0, "handles are not valid after emptying the registry");
}
