// Stand-in for algoim/uvector.hpp (the real library is not installed here).
// Only the interface /repo uses, with algoim's documented meaning: fixed size
// vectors with component-wise arithmetic. Value-initialised by default.
#ifndef ALGOIM_UVECTOR_HPP
#define ALGOIM_UVECTOR_HPP
#include <cmath>
#include <cstddef>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <cassert>
namespace algoim {
using real = double;
template<typename T, int N> class uvector
{
  T data_[N > 0 ? N : 1];

public:
  uvector() : data_{} {}
  // user-provided: keeps vectors passed by reference in the LLVM IR, component by component
  uvector(const uvector &v) { for (int i = 0; i < N; ++i) data_[i] = v.data_[i]; }
  uvector &operator=(const uvector &v) { for (int i = 0; i < N; ++i) data_[i] = v.data_[i]; return *this; }
  uvector(const T &v) { for (int i = 0; i < N; ++i) data_[i] = v; }
  template<typename S> requires(!std::is_same_v<S, T> && std::is_convertible_v<S, T>)
  uvector(const S &v) { for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(v); }
  template<typename S> requires(!std::is_same_v<S, T> && std::is_convertible_v<S, T>)
  uvector(const uvector<S, N> &v) { for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(v(i)); }
  template<typename A, typename B, typename... R>
    requires(sizeof...(R) + 2 == N && std::is_convertible_v<A, T> && std::is_convertible_v<B, T> && (std::is_convertible_v<R, T> && ...))
  uvector(const A &a, const B &b, const R &...r) : data_{ static_cast<T>(a), static_cast<T>(b), static_cast<T>(r)... } {}
  T &operator()(int i) { return data_[i]; }
  const T &operator()(int i) const { return data_[i]; }
  const T *data() const { return data_; }
  T *data() { return data_; }
#define ALGOIM_OP(op)                                                                                   \
  template<typename S> requires(requires(T a, S b) { a op b; })                                         \
  uvector &operator op(const uvector<S, N> &v) { for (int i = 0; i < N; ++i) data_[i] op v(i); return *this; } \
  uvector &operator op(const T &v) { const T c(v); for (int i = 0; i < N; ++i) data_[i] op c; return *this; }
  ALGOIM_OP(+=)
  ALGOIM_OP(-=)
  ALGOIM_OP(*=)
  ALGOIM_OP(/=)
#undef ALGOIM_OP
};
template<typename T, int N> class uvector;
#define ALGOIM_OP(op)                                                                          \
  template<typename T, typename S, int N> auto operator op(const uvector<T, N> &a, const uvector<S, N> &b) \
  { uvector<std::decay_t<decltype(a(0) op b(0))>, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b(i); return r; } \
  template<typename T, int N> uvector<T, N> operator op(const uvector<T, N> &a, const std::type_identity_t<T> &b) \
  { uvector<T, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b; return r; }                 \
  template<typename T, int N> uvector<T, N> operator op(const std::type_identity_t<T> &a, const uvector<T, N> &b) \
  { uvector<T, N> r; for (int i = 0; i < N; ++i) r(i) = a op b(i); return r; } \
  template<typename T, typename S, int N> requires(!std::is_convertible_v<S, T> && requires(T a, S b) { a op b; })   \
  auto operator op(const S &a, const uvector<T, N> &b) \
  { uvector<std::decay_t<decltype(a op b(0))>, N> r; for (int i = 0; i < N; ++i) r(i) = a op b(i); return r; } \
  template<typename T, typename S, int N> requires(!std::is_convertible_v<S, T> && requires(T a, S b) { a op b; })   \
  auto operator op(const uvector<T, N> &a, const S &b) \
  { uvector<std::decay_t<decltype(a(0) op b)>, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b; return r; }
ALGOIM_OP(+)
ALGOIM_OP(-)
ALGOIM_OP(*)
ALGOIM_OP(/)
#undef ALGOIM_OP
template<typename T, int N> uvector<T, N> operator-(const uvector<T, N> &a)
{ uvector<T, N> r; for (int i = 0; i < N; ++i) r(i) = -a(i); return r; }
#define ALGOIM_OP(op)                                                                          \
  template<typename T, int N> uvector<bool, N> operator op(const uvector<T, N> &a, const uvector<T, N> &b) \
  { uvector<bool, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b(i); return r; }           \
  template<typename T, int N> uvector<bool, N> operator op(const uvector<T, N> &a, const std::type_identity_t<T> &b) \
  { uvector<bool, N> r; for (int i = 0; i < N; ++i) r(i) = a(i) op b; return r; }
ALGOIM_OP(==)
ALGOIM_OP(!=)
ALGOIM_OP(<)
ALGOIM_OP(>)
ALGOIM_OP(<=)
ALGOIM_OP(>=)
#undef ALGOIM_OP
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a)
{ using std::abs; uvector<T, N> r; for (int i = 0; i < N; ++i) r(i) = abs(a(i)); return r; }
template<typename T, typename S, int N> auto dot(const uvector<T, N> &a, const uvector<S, N> &b)
{ std::decay_t<decltype(a(0) * b(0))> r = a(0) * b(0); for (int i = 1; i < N; ++i) r += a(i) * b(i); return r; }
template<typename T, int N> T sqrnorm(const uvector<T, N> &a) { return dot(a, a); }
template<typename T, int N> T norm(const uvector<T, N> &a) { using std::sqrt; return sqrt(sqrnorm(a)); }
template<typename T, int N> T prod(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r *= a(i); return r; }
template<typename T, int N> T sum(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r += a(i); return r; }
template<typename T, int N> T max(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r = std::max(r, a(i)); return r; }
template<typename T, int N> T min(const uvector<T, N> &a) { T r = a(0); for (int i = 1; i < N; ++i) r = std::min(r, a(i)); return r; }
template<typename T, int N> int argmax(const uvector<T, N> &a) { int k = 0; for (int i = 1; i < N; ++i) if (a(i) > a(k)) k = i; return k; }
template<typename T, int N> int argmin(const uvector<T, N> &a) { int k = 0; for (int i = 1; i < N; ++i) if (a(i) < a(k)) k = i; return k; }
template<typename T, int N> bool all(const uvector<T, N> &a) { for (int i = 0; i < N; ++i) if (!a(i)) return false; return true; }
template<typename T, int N> bool any(const uvector<T, N> &a) { for (int i = 0; i < N; ++i) if (a(i)) return true; return false; }
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &a, int k)
{ uvector<T, N - 1> r; for (int i = 0; i < N - 1; ++i) r(i) = a(i < k ? i : i + 1); return r; }
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &a, int k, T v)
{ uvector<T, N + 1> r; for (int i = 0; i < N + 1; ++i) r(i) = i < k ? a(i) : (i == k ? v : a(i - 1)); return r; }
template<typename T, int N> uvector<T, N> set_component(const uvector<T, N> &a, int k, T v)
{ uvector<T, N> r(a); r(k) = v; return r; }
template<typename T, int N> uvector<T, N> inc_component(const uvector<T, N> &a, int k)
{ uvector<T, N> r(a); ++r(k); return r; }
}// namespace algoim
#endif
