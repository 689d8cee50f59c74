#pragma once
#include <nanobind/nanobind.h>
namespace nanobind {
struct numpy
{
};
struct c_contig
{
};
struct ro
{
};
template<int... S> struct shape
{
  static constexpr int n = sizeof...(S);
  static constexpr int s[sizeof...(S) + 1] = { S..., 0 };
};
template<typename T> constexpr dtype dtype_of()
{
  using U = std::remove_cv_t<T>;
  if constexpr (std::is_same_v<U, double>) return dtype::f64;
  else if constexpr (std::is_same_v<U, float>) return dtype::f32;
  else if constexpr (std::is_integral_v<U> && sizeof(U) == 4 && std::is_signed_v<U>) return dtype::i32;
  else if constexpr (std::is_integral_v<U> && sizeof(U) == 8 && std::is_signed_v<U>) return dtype::i64;
  else {
    static_assert(std::is_integral_v<U> && sizeof(U) == 8);
    return dtype::u64;
  }
}
namespace detail {
  template<typename... T> struct traits
  {
    using scalar = void;
    using shape_t = void;
    static constexpr bool contig = false;
  };
  template<typename H, typename... T> struct traits<H, T...>
  {
    using rest = traits<T...>;
    using scalar = std::conditional_t<std::is_arithmetic_v<H>, H, typename rest::scalar>;
    using shape_t = typename rest::shape_t;
    static constexpr bool contig = rest::contig || std::is_same_v<H, c_contig>;
  };
  template<int... S, typename... T> struct traits<shape<S...>, T...> : traits<T...>
  {
    using shape_t = shape<S...>;
  };
}// namespace detail
// copy of an array, element by element, in C order
template<typename D, typename S> void copy_elements(const ndarray_data &from, D *to)
{
  std::vector<std::int64_t> at(from.shape.size(), 0);
  const std::int64_t n = from.size();
  for (std::int64_t k = 0; k < n; ++k) {
    std::int64_t off = 0;
    for (std::size_t i = 0; i < at.size(); ++i) off += at[i] * from.strides[i];
    to[k] = static_cast<D>(static_cast<const S *>(from.data)[off]);
    for (std::size_t i = at.size(); i-- > 0;) {
      if (++at[i] < from.shape[i]) break;
      at[i] = 0;
    }
  }
}
template<typename D> std::shared_ptr<ndarray_data> copied(const ndarray_data &from)
{
  auto a = std::make_shared<ndarray_data>();
  const std::int64_t n = from.size();
  D *mem = new D[static_cast<std::size_t>(n == 0 ? 1 : n)]();
  a->owner = std::make_shared<capsule_data>(mem, [](void *p) noexcept { delete[] static_cast<D *>(p); });
  a->data = mem;
  a->type = dtype_of<D>();
  a->shape = from.shape;
  a->strides.assign(from.shape.size(), 1);
  for (std::size_t i = from.shape.size(); i-- > 1;) a->strides[i - 1] = a->strides[i] * from.shape[i];
  switch (from.type) {
  case dtype::f64: copy_elements<D, double>(from, mem); break;
  case dtype::f32: copy_elements<D, float>(from, mem); break;
  case dtype::i64: copy_elements<D, std::int64_t>(from, mem); break;
  case dtype::i32: copy_elements<D, std::int32_t>(from, mem); break;
  case dtype::u64: copy_elements<D, std::uint64_t>(from, mem); break;
  }
  return a;
}
template<typename... T> struct ndarray
{
  using traits = detail::traits<T...>;
  using scalar = typename traits::scalar;
  std::shared_ptr<ndarray_data> a;
  ndarray() = default;
  ndarray(const scalar *data, std::size_t ndim, const std::size_t *sh, handle owner = {})
  {
    a = std::make_shared<ndarray_data>();
    a->data = const_cast<std::remove_const_t<scalar> *>(data);
    a->type = dtype_of<scalar>();
    a->shape.assign(sh, sh + ndim);
    a->strides.assign(ndim, 1);
    for (std::size_t i = ndim; i-- > 1;) a->strides[i - 1] = a->strides[i] * a->shape[i];
    a->owner = owner.keep;
  }
  ndarray(const scalar *data, std::initializer_list<std::size_t> sh, handle owner = {}) : ndarray(data, sh.size(), sh.begin(), std::move(owner)) {}
  scalar *data() const { return static_cast<scalar *>(a->data); }
  std::size_t size() const { return static_cast<std::size_t>(a->size()); }
  std::size_t ndim() const { return a->shape.size(); }
  std::size_t shape(std::size_t i) const { return static_cast<std::size_t>(a->shape[i]); }
  std::int64_t stride(std::size_t i) const { return a->strides[i]; }
  template<typename... I> scalar &operator()(I... i) const
  {
    const std::int64_t at[] = { static_cast<std::int64_t>(i)... };
    std::int64_t off = 0;
    for (std::size_t k = 0; k < sizeof...(I); ++k) off += at[k] * a->strides[k];
    return data()[off];
  }
  object cast(rv_policy p = rv_policy::automatic_reference) const;
};
template<typename... T> struct caster<ndarray<T...>>
{
  using A = ndarray<T...>;
  using scalar = typename A::traits::scalar;
  static bool load(const value &v, bool convert, std::optional<A> &out)
  {
    if (v.kind != value::array) return false;
    using S = typename A::traits::shape_t;
    if constexpr (!std::is_void_v<S>) {
      if (v.a->shape.size() != S::n) return false;
      for (int i = 0; i < S::n; ++i)
        if (S::s[i] >= 0 && v.a->shape[static_cast<std::size_t>(i)] != S::s[i]) return false;
    }
    if (v.a->readonly && !std::is_const_v<scalar>) return false;
    const bool same = v.a->type == dtype_of<scalar>() && (!A::traits::contig || v.a->contiguous());
    if (!same && !convert) return false;
    out.emplace();
    out->a = same ? v.a : copied<std::remove_const_t<scalar>>(*v.a);
    return true;
  }
  static value cast(const A &x, rv_policy p, const value *self)
  {
    value v;
    if (x.a == nullptr) return v;
    v.kind = value::array;
    bool copy = false;
    auto a = x.a;
    if (p == rv_policy::reference_internal && a->owner == nullptr && self != nullptr) {
      a = std::make_shared<ndarray_data>(*a);
      a->owner = self->keep;
    } else if (p == rv_policy::automatic || p == rv_policy::automatic_reference || p == rv_policy::reference_internal)
      copy = a->owner == nullptr;
    else copy = p == rv_policy::copy || p == rv_policy::move;
    v.a = copy ? copied<std::remove_const_t<scalar>>(*a) : a;
    return v;
  }
  static std::string kind()
  {
    constexpr dtype t = dtype_of<scalar>();
    std::string s = t == dtype::f64 ? "f8" : t == dtype::i64 ? "i8" : t == dtype::u64 ? "u8" : t == dtype::f32 ? "f4" : "i4";
    using S = typename A::traits::shape_t;
    s = "ndarray " + s + (A::traits::contig ? " C" : " A");
    if constexpr (!std::is_void_v<S>)
      for (int i = 0; i < S::n; ++i) s += " " + std::to_string(S::s[i]);
    return s;
  }
};
template<typename... T> object ndarray<T...>::cast(rv_policy p) const { return object(caster<ndarray<T...>>::cast(*this, p, nullptr)); }
inline bool sequence(const value &v, bool convert, std::vector<value> &out)
{
  if (v.kind == value::list) {
    out = v.items;
    return true;
  }
  if (v.kind != value::array || !convert || v.a->shape.size() != 1) return false;
  for (std::int64_t i = 0; i < v.a->shape[0]; ++i) {
    value x;
    const std::int64_t off = i * v.a->strides[0];
    switch (v.a->type) {
    case dtype::f64: x = caster<double>::cast(static_cast<double *>(v.a->data)[off], rv_policy::copy, nullptr); break;
    case dtype::i64: x = caster<std::int64_t>::cast(static_cast<std::int64_t *>(v.a->data)[off], rv_policy::copy, nullptr); break;
    case dtype::i32: x = caster<std::int32_t>::cast(static_cast<std::int32_t *>(v.a->data)[off], rv_policy::copy, nullptr); break;
    default: return false;
    }
    out.push_back(x);
  }
  return true;
}
// what the harnesses hand over
inline value real_(double d) { return caster<double>::cast(d, rv_policy::copy, nullptr); }
inline value int_(std::int64_t i) { return caster<std::int64_t>::cast(i, rv_policy::copy, nullptr); }
inline value bool_(bool b) { return caster<bool>::cast(b, rv_policy::copy, nullptr); }
inline value list_(std::vector<value> items)
{
  value v;
  v.kind = value::list;
  v.items = std::move(items);
  return v;
}
// array of the shape with `gap` elements of padding after every one of them
template<typename D> value array_(const std::vector<D> &x, std::vector<std::int64_t> sh, int gap = 0)
{
  ndarray_data from;
  value v;
  v.kind = value::array;
  const std::int64_t step = 1 + gap;
  std::vector<D> mem(x.size() * static_cast<std::size_t>(step), D(77));
  for (std::size_t k = 0; k < x.size(); ++k) mem[k * static_cast<std::size_t>(step)] = x[k];
  from.data = mem.data();
  from.type = dtype_of<D>();
  from.shape = { static_cast<std::int64_t>(mem.size()) };
  from.strides = { 1 };
  v.a = copied<D>(from);
  v.a->shape = std::move(sh);
  v.a->strides.assign(v.a->shape.size(), step);
  for (std::size_t i = v.a->shape.size(); i-- > 1;) v.a->strides[i - 1] = v.a->strides[i] * v.a->shape[i];
  return v;
}
}// namespace nanobind
