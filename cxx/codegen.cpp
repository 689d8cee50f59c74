// The kernels written by the code generation of qugar (python/qugar/dolfinx), for the integrals of gen/scenarios.py,
// compute the integral over the custom quadrature of the entity: see gen/codegen.py for what is compared.
// GEN: gen/codegen.py
#include "qvc.h"
#include <cstddef>
#include <cstring>
#include <new>
#include "scenarios_elements.h"

// the points (of each side, and on the facet), weights and normals of one quadrature of an entity
template<typename T> struct Quad
{
  int n;
  const T *x[2], *facet, *w, *normal;
};

// value of function k (component comp, derivative didx) of element h at x: one value for every one of these
static double value(int h, int didx, int k, int comp, const double *x, int dim)
{
  double v = 1.0 + ((h * 7 + didx * 3 + k * 5 + comp * 11) % 13);
  for (int d = 0; d < dim; ++d) v += (1.0 + ((h * 5 + didx * 7 + k * 3 + comp * 2 + d * 6) % 11)) * x[d];
  return v;
}
static double value(int h, int didx, int k, int comp, const float *x, int dim)
{
  double v = 1.0 + ((h * 7 + didx * 3 + k * 5 + comp * 11) % 13);
  for (int d = 0; d < dim; ++d) v += (1.0 + ((h * 5 + didx * 7 + k * 3 + comp * 2 + d * 6) % 11)) * static_cast<double>(x[d]);
  return v;
}

#include "scenarios.h"

// the library that tabulates: contracts of the functions of the shim
namespace {
template<typename T> struct Scratch
{
  T *p = nullptr;
  long n = 0;
};
template<typename T> Scratch<T> &scratch()
{
  static Scratch<T> s;
  return s;
}
// valid until the next request
template<typename T> T *get_scratch(long n)
{
  auto &s = scratch<T>();
  delete[] s.p;
  s.p = new T[static_cast<std::size_t>(n)];
  s.n = n;
  return s.p;
}
int register_element(int family, int cell, int degree, int lv, int dv, int disc)
{
  int h = 1;
  for (const auto &e : elements) {
    if (e.family == family && e.cell == cell && e.degree == degree && e.lv == lv && e.dv == dv && e.disc == disc) return h;
    ++h;
  }
  return -1;
}
template<typename T> int tabulate(int handle, int nd, const T *x, int n, int gdim, T *out, long cap)
{
  if (handle < 1 || handle > static_cast<int>(sizeof(elements) / sizeof(El))) return -1;
  const El &e = elements[handle - 1];
  if (e.dim != gdim) return -1;
  long nder = 1;// binomial(nd + dim, dim)
  for (int i = 1; i <= gdim; ++i) nder = nder * (nd + i) / i;
  if (nder * n * e.dofs * e.vs > cap) return -2;
  for (int d = 0; d < nder; ++d)
    for (int p = 0; p < n; ++p)
      for (int k = 0; k < e.dofs; ++k)
        for (int c = 0; c < e.vs; ++c) out[((d * n + p) * e.dofs + k) * e.vs + c] = static_cast<T>(value(handle, d, k, c, x + p * gdim, gdim));
  return 0;
}
}// namespace
extern "C" {
int qugar_register_element_f64(int f, int c, int d, int l, int v, int i) { return register_element(f, c, d, l, v, i); }
int qugar_register_element_f32(int f, int c, int d, int l, int v, int i) { return register_element(f, c, d, l, v, i); }
int qugar_tabulate_f64(int h, int nd, const double *x, int n, int g, double *b, long cap) { return tabulate(h, nd, x, n, g, b, cap); }
int qugar_tabulate_f32(int h, int nd, const float *x, int n, int g, float *b, long cap) { return tabulate(h, nd, x, n, g, b, cap); }
double *qugar_get_scratch_f64(long n) { return get_scratch<double>(n); }
float *qugar_get_scratch_f32(long n) { return get_scratch<float>(n); }
}

namespace {
template<typename C> struct Parts
{
  static C make(const char *n, int i) { return static_cast<C>(qv_real(qv::idx2(n, i / 10, i % 10))); }
  static void same(C a, C b, const char *tag) { qv_check_eq(a, b, tag); }
};
template<> struct Parts<double _Complex>
{
  static double _Complex make(const char *n, int i)
  {
    double _Complex z;
    __real__ z = qv_real(qv::idx2(n, i / 10, i % 10));
    char im[8] = { 'i', n[0], 0 };
    __imag__ z = qv_real(qv::idx2(im, i / 10, i % 10));
    return z;
  }
  static void same(double _Complex a, double _Complex b, const char *tag)
  {
    qv_check_eq(__real__ a, __real__ b, tag);
    qv_check_eq(__imag__ a, __imag__ b, tag);
  }
};

// one kernel: an entity with custom quadratures of nmax points at most, one inside and one without points
template<typename I> void kernel(int nmax)
{
  using T = typename I::T;
  using C = typename I::C;
  constexpr int td = I::tdim, nq = I::quads;
  const int what = qv::each("what", -1, 1);
  int n[nq];
  for (int i = 0; i < nq; ++i) n[i] = what > 0 ? qv::each(qv::idx("n", i), 0, nmax) : 0;
  // coefficients | position of the data | (other entities) | data
  long len = 0;
  for (int i = 0; i < nq; ++i)
    len += 1 + n[i] * (td * I::sides + (I::facet_points ? td - 1 : 0) + 1 + (I::unfitted[i] ? td : 0));
  constexpr int ratio = sizeof(C) / sizeof(T);
  constexpr long cells = (sizeof(std::ptrdiff_t) + sizeof(C) - 1) / sizeof(C), gap = 3;
  const long at = (I::coeffs + cells) * ratio + gap;
  T *buf = new T[static_cast<std::size_t>(at + len)];
  C *w = reinterpret_cast<C *>(buf);
  for (int i = 0; i < I::coeffs; ++i) w[i] = Parts<C>::make("w", i);
  const std::ptrdiff_t off = what > 0 ? at : what;
  std::memcpy(buf + I::coeffs * ratio, &off, sizeof(off));
  for (int i = 0; i < gap; ++i) buf[at - 1 - i] = T(77);
  Quad<T> Q[nq];
  T *p = buf + at;
  int id = 0;
  auto some = [&](int m) {
    const T *b = p;
    for (int i = 0; i < m; ++i, ++id) *p++ = static_cast<T>(qv_real(qv::idx2("q", id / 10, id % 10)));
    return b;
  };
  for (int pos = 0; pos < nq; ++pos) {
    const int j = I::order[pos];
    auto &q = Q[j];
    q.n = n[j];
    *p++ = static_cast<T>(n[j]);
    q.x[0] = some(td * n[j]);
    q.x[1] = I::sides == 2 ? some(td * n[j]) : nullptr;
    q.facet = I::facet_points ? some((td - 1) * n[j]) : nullptr;
    q.w = some(n[j]);
    q.normal = I::unfitted[j] ? some(td * n[j]) : nullptr;
  }
  C *c = new C[I::consts > 0 ? I::consts : 1];
  for (int i = 0; i < I::consts; ++i) c[i] = Parts<C>::make("c", i);
  T *xs = new T[I::coords];
  for (int i = 0; i < I::coords; ++i) xs[i] = static_cast<T>(qv_real(qv::idx2("x", i / 10, i % 10)));
  int ent[2] = { 0, 0 };
  uint8_t perm[2] = { 0, 0 };
  if (I::facets > 0) {
    ent[0] = qv::each("e", 0, I::facets - 1);
    ent[1] = (5 * ent[0] + 1) % I::facets;
  }
  constexpr bool permuted = I::sides > 1 || I::facet_points;
  if (permuted) {
    perm[0] = static_cast<uint8_t>(qv::each("p", 0, I::perms - 1));
    perm[1] = static_cast<uint8_t>((3 * perm[0] + 1 + ent[0]) % I::perms);
  }
  // what an entity with custom quadratures computes does not depend on the number of its facet nor on permutations
  C *A = new C[I::size], *B = new C[I::size];
  for (int i = 0; i < I::size; ++i) B[i] = A[i] = C(3 + i % 5);
  I::kernel(A, w, c, xs, I::facets > 0 ? ent : nullptr, permuted ? perm : nullptr, nullptr);
  if (what > 0) I::spec(B, w, c, xs, ent, perm, Q);
  else if (what < 0) I::orig(B, w, c, xs, ent, perm);
  const char *tag = what > 0 ? "the integral over the custom quadrature of the entity" : what < 0 ? "entities inside: the integral over the whole entity" : "entities without points contribute nothing";
  for (int i = 0; i < I::size; ++i) Parts<C>::same(A[i], B[i], tag);
  delete[] A;
  delete[] B;
  delete[] xs;
  delete[] c;
  delete[] buf;
}
}// namespace

#ifndef ERR_cell
HARNESS(n_cell) { kernel<I_aa0_quadrilateral>(2); }
#else
HARNESS(n_cell) { qv_check(false, ERR_cell); }
#endif
#ifndef ERR_unfitted
HARNESS(n_unfitted) { kernel<I_ab1_quadrilateral>(2); }
#else
HARNESS(n_unfitted) { qv_check(false, ERR_unfitted); }
#endif
#ifndef ERR_boundary_first
HARNESS(n_boundary_first) { kernel<I_abf_quadrilateral>(1); }
#else
HARNESS(n_boundary_first) { qv_check(false, ERR_boundary_first); }
#endif
#ifndef ERR_affine
HARNESS(n_affine) { kernel<I_ac2_triangle>(2); }
#else
HARNESS(n_affine) { qv_check(false, ERR_affine); }
#endif
#ifndef ERR_one_point
HARNESS(n_one_point) { kernel<I_ad3_quadrilateral>(2); }
#else
HARNESS(n_one_point) { qv_check(false, ERR_one_point); }
#endif
#ifndef ERR_vector
HARNESS(n_vector) { kernel<I_ae4_quadrilateral>(2); }
#else
HARNESS(n_vector) { qv_check(false, ERR_vector); }
#endif
#ifndef ERR_mixed
HARNESS(n_mixed) { kernel<I_af5_triangle>(2); }
#else
HARNESS(n_mixed) { qv_check(false, ERR_mixed); }
#endif
#ifndef ERR_exterior
HARNESS(n_exterior) { kernel<I_ba6_quadrilateral>(2); }
#else
HARNESS(n_exterior) { qv_check(false, ERR_exterior); }
#endif
#ifndef ERR_exterior_tri
HARNESS(n_exterior_tri) { kernel<I_bb7_triangle>(2); }
#else
HARNESS(n_exterior_tri) { qv_check(false, ERR_exterior_tri); }
#endif
#ifndef ERR_mixed_dim
HARNESS(n_mixed_dim) { kernel<I_bc8_quadrilateral>(2); }
#else
HARNESS(n_mixed_dim) { qv_check(false, ERR_mixed_dim); }
#endif
#ifndef ERR_interior
HARNESS(n_interior) { kernel<I_ca9_quadrilateral>(2); }
#else
HARNESS(n_interior) { qv_check(false, ERR_interior); }
#endif
#ifndef ERR_interior_two
HARNESS(n_interior_two) { kernel<I_cba_quadrilateral>(2); }
#else
HARNESS(n_interior_two) { qv_check(false, ERR_interior_two); }
#endif
#ifndef ERR_interior_tri
HARNESS(n_interior_tri) { kernel<I_ccb_triangle>(2); }
#else
HARNESS(n_interior_tri) { qv_check(false, ERR_interior_tri); }
#endif
#ifndef ERR_cell3
HARNESS(n_cell3) { kernel<I_dac_hexahedron>(1); }
#else
HARNESS(n_cell3) { qv_check(false, ERR_cell3); }
#endif
#ifndef ERR_interior3
HARNESS(n_interior3) { kernel<I_dbd_hexahedron>(1); }
#else
HARNESS(n_interior3) { qv_check(false, ERR_interior3); }
#endif
#ifndef ERR_interior3_one
HARNESS(n_interior3_one) { kernel<I_dce_hexahedron>(1); }
#else
HARNESS(n_interior3_one) { qv_check(false, ERR_interior3_one); }
#endif
#ifndef ERR_float
HARNESS(n_float) { kernel<I_eae_quadrilateral>(2); }
#else
HARNESS(n_float) { qv_check(false, ERR_float); }
#endif
#ifndef ERR_complex
HARNESS(n_complex) { kernel<I_ebf_quadrilateral>(2); }
#else
HARNESS(n_complex) { qv_check(false, ERR_complex); }
#endif
#ifdef ERR_several
HARNESS(n_several) { qv_check(false, ERR_several); }
#else
HARNESS(n_several)
{
  switch (qv::each("integral", 0, 2)) {
  case 0: kernel<I_fa0_quadrilateral>(1); break;
  case 1: kernel<I_fb1_quadrilateral>(1); break;
  default: kernel<I_fc2_quadrilateral>(1);
  }
}
#endif
