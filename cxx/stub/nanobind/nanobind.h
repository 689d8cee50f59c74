// Stand-in of nanobind for the checks: bound functions are kept in tables and
// called with values that play the Python objects. Follows nanobind's rules
// for overloads (in the order of definition, first without and then with
// implicit conversions), default arguments, inheritance (a pointer to a base
// class is handed over as the registered class of its dynamic type), and what
// becomes of arrays: copied when nobody owns them, kept with the object whose
// method returned them for reference_internal, never otherwise.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
namespace nanobind {
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };

enum class dtype { f64, f32, i64, i32, u64 };
inline std::size_t width(dtype t) { return t == dtype::f32 || t == dtype::i32 ? 4 : 8; }
// memory of an array that is freed with its last user
struct capsule_data
{
  void *ptr = nullptr;
  void (*del)(void *) noexcept = nullptr;
  capsule_data(void *p, void (*d)(void *) noexcept) : ptr(p), del(d) {}
  capsule_data(const capsule_data &) = delete;
  ~capsule_data() { if (del != nullptr) del(ptr); }
};
struct ndarray_data
{
  void *data = nullptr;
  dtype type = dtype::f64;
  bool readonly = false;
  std::vector<std::int64_t> shape, strides;// in elements
  std::shared_ptr<void> owner;
  bool contiguous() const
  {
    std::int64_t s = 1;
    for (std::size_t i = shape.size(); i-- > 0;) {
      if (shape[i] == 0) return true;
      if (shape[i] != 1 && strides[i] != s) return false;
      s *= shape[i];
    }
    return true;
  }
  std::int64_t size() const
  {
    std::int64_t s = 1;
    for (auto n : shape) s *= n;
    return s;
  }
};
// a Python object
struct value
{
  enum Kind { none, boolean, integer, floating, array, list, instance } kind = none;
  bool b = false;
  std::int64_t i = 0;
  double d = 0.0;
  std::shared_ptr<ndarray_data> a;
  std::vector<value> items;
  void *ptr = nullptr;
  const std::type_info *type = nullptr;
  std::shared_ptr<void> keep;
};
template<typename T> inline const char key_of = 0;
struct class_info
{
  const std::type_info *type = nullptr;
  const void *key = nullptr, *base_key = nullptr;
  std::string name;
  const std::type_info *base = nullptr;
  void *(*up)(void *) = nullptr;
};
struct callable
{
  std::string name;
  std::vector<const char *> arg_names;
  std::vector<int> with_default;// position in defaults, or -1
  std::vector<value> defaults;
  std::size_t n_args = 0;
  bool method = false, property = false;
  const std::type_info *cls = nullptr;
  const void *cls_key = nullptr;
  rv_policy policy = rv_policy::automatic;
  virtual ~callable() = default;
  // false: the arguments do not fit
  virtual bool call(std::vector<value> &args, bool convert, value &out) const = 0;
  virtual void kinds(std::vector<std::string> &out) const = 0;
  virtual std::string result() const = 0;
};
struct tables
{
  std::vector<class_info> classes;
  std::vector<std::unique_ptr<callable>> funcs;
  // the class of a name (nullptr: none)
  const class_info *of(const std::type_info *t) const
  {
    for (const auto &c : classes)
      if (c.type == t) return &c;
    return nullptr;
  }
};
inline tables &reg()
{
  static tables t;
  return t;
}
// pointer to the part of class t of an instance (nullptr: not one)
inline void *part(const value &v, const std::type_info *t)
{
  if (v.kind != value::instance) return nullptr;
  void *p = v.ptr;
  const std::type_info *c = v.type;
  while (c != nullptr) {
    if (c == t) return p;
    const class_info *k = reg().of(c);
    if (k == nullptr || k->base == nullptr) return nullptr;
    p = k->up(p);
    c = k->base;
  }
  return nullptr;
}

struct handle
{
  std::shared_ptr<void> keep;
  handle() = default;
  explicit handle(std::shared_ptr<void> k) : keep(std::move(k)) {}
};
struct capsule : handle
{
  capsule(void *ptr, void (*del)(void *) noexcept) : handle(std::make_shared<capsule_data>(ptr, del)) {}
};
struct object : handle
{
  value v;
  object() = default;
  explicit object(value x) : v(std::move(x)) {}
};
struct tuple : object
{
  using object::object;
};
struct none_t
{
};
inline none_t none() { return {}; }

// bound classes
template<typename... T> struct ndarray;
template<typename T> struct is_value_class : std::bool_constant<std::is_class_v<T> && !std::is_base_of_v<object, T> && !std::is_same_v<T, none_t> && !std::is_same_v<T, value>> {};
template<typename T, std::size_t N> struct is_value_class<std::array<T, N>> : std::false_type {};
template<typename T> struct is_value_class<std::vector<T>> : std::false_type {};
template<typename T> struct is_value_class<std::optional<T>> : std::false_type {};
template<typename T> struct is_value_class<std::shared_ptr<T>> : std::false_type {};
template<typename... T> struct is_value_class<ndarray<T...>> : std::false_type {};

// ------------------------------------------------------------- casters ---
template<typename T, typename = void> struct caster;
template<typename T> struct caster<T, std::enable_if_t<std::is_same_v<T, bool>>>
{
  static bool load(const value &v, bool, std::optional<T> &out)
  {
    if (v.kind != value::boolean) return false;
    out = v.b;
    return true;
  }
  static value cast(T x, rv_policy, const value *)
  {
    value v;
    v.kind = value::boolean;
    v.b = x;
    return v;
  }
  static std::string kind() { return "bool"; }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
  static bool load(const value &v, bool, std::optional<T> &out)
  {
    if (v.kind != value::integer) return false;
    if (static_cast<std::int64_t>(static_cast<T>(v.i)) != v.i || (std::is_unsigned_v<T> && v.i < 0)) return false;
    out = static_cast<T>(v.i);
    return true;
  }
  static value cast(T x, rv_policy, const value *)
  {
    value v;
    v.kind = value::integer;
    v.i = static_cast<std::int64_t>(x);
    return v;
  }
  static std::string kind() { return "int"; }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
  static bool load(const value &v, bool convert, std::optional<T> &out)
  {
    if (v.kind == value::floating) out = v.d;
    else if (v.kind == value::integer && convert) out = static_cast<T>(v.i);
    else return false;
    return true;
  }
  static value cast(T x, rv_policy, const value *)
  {
    value v;
    v.kind = value::floating;
    v.d = x;
    return v;
  }
  static std::string kind() { return "real"; }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>>
{
  static bool load(const value &v, bool, std::optional<T> &out)
  {
    if (v.kind != value::integer) return false;
    out = static_cast<T>(v.i);
    return true;
  }
  static value cast(T x, rv_policy p, const value *s) { return caster<std::int64_t>::cast(static_cast<std::int64_t>(x), p, s); }
  static std::string kind() { return "enum"; }
};
template<> struct caster<none_t>
{
  static value cast(none_t, rv_policy, const value *) { return {}; }
};
template<> struct caster<value>
{
  static value cast(const value &v, rv_policy, const value *) { return v; }
};
template<typename T> struct caster<T, std::enable_if_t<std::is_base_of_v<object, T>>>
{
  static value cast(const T &o, rv_policy, const value *) { return o.v; }
};
template<typename T> struct caster<std::optional<T>>
{
  static bool load(const value &v, bool convert, std::optional<std::optional<T>> &out)
  {
    if (v.kind == value::none) {
      out.emplace(std::nullopt);
      return true;
    }
    std::optional<T> x;
    if (!caster<T>::load(v, convert, x)) return false;
    out.emplace(std::move(x));
    return true;
  }
  static std::string kind() { return "optional " + caster<T>::kind(); }
};
// items of a sequence: a list, or an array of one dimension (of numpy's own
// number types, so that taking them as numbers is a conversion)
inline bool sequence(const value &v, bool convert, std::vector<value> &out);
template<typename T, std::size_t N> struct caster<std::array<T, N>>
{
  static bool load(const value &v, bool convert, std::optional<std::array<T, N>> &out)
  {
    std::vector<value> items;
    if (!sequence(v, convert, items) || items.size() != N) return false;
    out.emplace();
    for (std::size_t i = 0; i < N; ++i) {
      std::optional<T> x;
      if (!caster<T>::load(items[i], convert, x)) return false;
      (*out)[i] = std::move(*x);
    }
    return true;
  }
  static value cast(const std::array<T, N> &x, rv_policy p, const value *self)
  {
    value v;
    v.kind = value::list;
    for (const auto &y : x) v.items.push_back(caster<T>::cast(y, p, self));
    return v;
  }
  static std::string kind() { return "array<" + caster<T>::kind() + "," + std::to_string(N) + ">"; }
};
template<typename T> struct caster<std::vector<T>>
{
  static bool load(const value &v, bool convert, std::optional<std::vector<T>> &out)
  {
    std::vector<value> items;
    if (!sequence(v, convert, items)) return false;
    out.emplace();
    for (const auto &it : items) {
      std::optional<T> x;
      if (!caster<T>::load(it, convert, x)) return false;
      out->push_back(std::move(*x));
    }
    return true;
  }
  static value cast(const std::vector<T> &x, rv_policy p, const value *self)
  {
    value v;
    v.kind = value::list;
    for (const auto &y : x) v.items.push_back(caster<T>::cast(y, p, self));
    return v;
  }
  static std::string kind() { return "vector<" + caster<T>::kind() + ">"; }
};
template<typename T> struct caster<std::shared_ptr<T>>
{
  using C = std::remove_const_t<T>;
  static bool load(const value &v, bool, std::optional<std::shared_ptr<T>> &out)
  {
    if (v.kind == value::none) {
      out.emplace();
      return true;
    }
    void *p = part(v, &typeid(C));
    if (p == nullptr) return false;
    out.emplace(v.keep, static_cast<C *>(p));
    return true;
  }
  static value cast(const std::shared_ptr<T> &x, rv_policy, const value *)
  {
    value v;
    if (x == nullptr) return v;
    v.kind = value::instance;
    C *p = const_cast<C *>(x.get());
    v.ptr = p;
    v.type = &typeid(C);
    if constexpr (std::is_polymorphic_v<C>) {
      const std::type_info *dyn = &typeid(*p);
      if (reg().of(dyn) != nullptr) {
        v.ptr = dynamic_cast<void *>(p);
        v.type = dyn;
      }
    }
    v.keep = std::const_pointer_cast<C>(x);
    return v;
  }
  static std::string kind();
};
// instances of bound classes
template<typename T> struct caster<T, std::enable_if_t<is_value_class<T>::value>>
{
  static value cast(T &&x, rv_policy p, const value *self) { return caster<std::shared_ptr<T>>::cast(std::make_shared<T>(std::move(x)), p, self); }
  static value cast(const T &x, rv_policy p, const value *self)
  {
    if (p == rv_policy::reference || p == rv_policy::reference_internal) {
      value v;
      v.kind = value::instance;
      v.ptr = const_cast<T *>(&x);
      v.type = &typeid(T);
      if (p == rv_policy::reference_internal && self != nullptr) v.keep = self->keep;
      return v;
    }
    return caster<std::shared_ptr<T>>::cast(std::make_shared<T>(x), p, self);
  }
};
template<typename T> std::string instance_kind()
{
  for (const auto &c : reg().classes)
    if (c.key == &key_of<T>) return "inst " + c.name;
  return "inst ?";
}
template<typename T> std::string caster<std::shared_ptr<T>>::kind() { return instance_kind<C>(); }

// what an argument is kept as while the function runs
template<typename A, typename = void> struct slot
{
  using T = std::remove_cv_t<std::remove_reference_t<A>>;
  std::optional<T> x;
  bool load(const value &v, bool convert) { return caster<T>::load(v, convert, x); }
  A get() { return static_cast<A>(*x); }
  static std::string kind() { return caster<T>::kind(); }
};
template<typename A> struct slot<A, std::enable_if_t<is_value_class<std::remove_cv_t<std::remove_reference_t<A>>>::value>>
{
  using T = std::remove_cv_t<std::remove_reference_t<A>>;
  T *p = nullptr;
  value keep;
  bool load(const value &v, bool)
  {
    p = static_cast<T *>(part(v, &typeid(T)));
    keep = v;
    return p != nullptr;
  }
  A get() { return static_cast<A>(*p); }
  static std::string kind() { return instance_kind<T>(); }
};

// ------------------------------------------------------------ functions ---
struct arg
{
  const char *name;
  explicit arg(const char *n) : name(n) {}
  struct with
  {
    const char *name;
    value v;
  };
  template<typename T> with operator=(T &&x) const
  {
    return { name, caster<std::remove_cv_t<std::remove_reference_t<T>>>::cast(std::forward<T>(x), rv_policy::automatic, nullptr) };
  }
};
struct arg_with_marker
{
};
inline void extra(callable &c, const arg &a)
{
  c.arg_names.push_back(a.name);
  c.with_default.push_back(-1);
}
inline void extra(callable &c, const arg::with &a)
{
  c.arg_names.push_back(a.name);
  c.with_default.push_back(static_cast<int>(c.defaults.size()));
  c.defaults.push_back(a.v);
}
inline void extra(callable &c, rv_policy p) { c.policy = p; }
inline void extra(callable &, const char *) {}

template<typename F, typename R, typename... A> struct bound final : callable
{
  F f;
  explicit bound(F g) : f(std::move(g)) { n_args = sizeof...(A); }
  template<std::size_t... I> bool run(std::vector<value> &args, bool convert, value &out, std::index_sequence<I...>) const
  {
    std::tuple<slot<A>...> s;
    if (!(std::get<I>(s).load(args[I], convert) && ...)) return false;
    rv_policy p = policy;
    const value *self = method ? &args[0] : nullptr;
    if constexpr (std::is_void_v<R>) {
      const_cast<F &>(f)(std::get<I>(s).get()...);
      out = value();
    } else {
      using T = std::remove_cv_t<std::remove_reference_t<R>>;
      out = caster<T>::cast(const_cast<F &>(f)(std::get<I>(s).get()...), p, self);
    }
    return true;
  }
  bool call(std::vector<value> &args, bool convert, value &out) const override
  {
    return run(args, convert, out, std::index_sequence_for<A...>());
  }
  void kinds(std::vector<std::string> &out) const override { (out.push_back(slot<A>::kind()), ...); }
  std::string result() const override
  {
    using T = std::remove_cv_t<std::remove_reference_t<R>>;
    if constexpr (std::is_void_v<R>) return "none";
    else if constexpr (std::is_base_of_v<object, T>) return "object";
    else return slot<T>::kind();
  }
};
template<typename F, typename Op> struct maker : maker<F, decltype(&F::operator())>
{
};
template<typename F, typename C, typename R, typename... A> struct maker<F, R (C::*)(A...) const>
{
  static std::unique_ptr<callable> make(F f) { return std::make_unique<bound<F, R, A...>>(std::move(f)); }
};
template<typename F, typename C, typename R, typename... A> struct maker<F, R (C::*)(A...)>
{
  static std::unique_ptr<callable> make(F f) { return std::make_unique<bound<F, R, A...>>(std::move(f)); }
};
template<typename Self, typename F> std::unique_ptr<callable> make_callable(F f)
{
  return maker<F, decltype(&F::operator())>::make(std::move(f));
}
template<typename Self, typename R, typename C, typename... A> std::unique_ptr<callable> make_callable(R (C::*f)(A...) const)
{
  return make_callable<Self>([f](const Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template<typename Self, typename R, typename C, typename... A> std::unique_ptr<callable> make_callable(R (C::*f)(A...))
{
  return make_callable<Self>([f](Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template<typename Self, typename R, typename... A> std::unique_ptr<callable> make_callable(R (*f)(A...))
{
  return make_callable<Self>([f](A... a) -> R { return f(std::forward<A>(a)...); });
}

// calls name (a method of the class of args[0], if any); false: no overload
// takes these arguments
inline bool same_name(const char *a, const char *b)
{
  while (*a != 0 && *a == *b) ++a, ++b;
  return *a == *b;
}
inline bool call(const char *name, std::vector<value> args, value &out, bool property = false, const std::vector<std::pair<const char *, value>> &kw = {})
{
  for (int pass = 0; pass < 2; ++pass)
    for (const auto &c : reg().funcs) {
      if (c->property != property || c->name != name) continue;
      if (c->method && (args.empty() || part(args[0], c->cls) == nullptr)) continue;
      if (args.size() > c->n_args) continue;
      std::vector<value> full(args);
      bool ok = true;
      const std::size_t skip = c->method ? 1 : 0;
      std::size_t used = 0;
      for (std::size_t k = args.size(); k < c->n_args && ok; ++k) {
        const std::size_t n = k - skip;
        ok = n < c->with_default.size();
        if (!ok) break;
        bool named = false;
        for (const auto &[key, v] : kw)
          if (same_name(key, c->arg_names[n])) {
            full.push_back(v);
            named = true;
            ++used;
            break;
          }
        if (named) continue;
        ok = c->with_default[n] >= 0;
        if (ok) full.push_back(c->defaults[static_cast<std::size_t>(c->with_default[n])]);
      }
      if (ok && used == kw.size() && c->call(full, pass == 1, out)) return true;
    }
  return false;
}

struct module_
{
  struct sink
  {
    template<typename T> sink &operator=(T &&) { return *this; }
  };
  module_() { reg().classes.clear(), reg().funcs.clear(); }
  template<typename F, typename... E> module_ &def(const char *name, F f, const E &...e)
  {
    auto c = make_callable<void>(std::move(f));
    c->name = name;
    (extra(*c, e), ...);
    reg().funcs.push_back(std::move(c));
    return *this;
  }
  sink doc() { return {}; }
  sink attr(const char *) { return {}; }
};
template<typename T, typename... B> struct class_
{
  class_(module_ &, const char *name, const char * = nullptr)
  {
    class_info k;
    k.type = &typeid(T);
    k.key = &key_of<T>;
    k.name = name;
    static_assert(sizeof...(B) <= 1);
    if constexpr (sizeof...(B) == 1) {
      using Base = std::tuple_element_t<0, std::tuple<B...>>;
      k.base = &typeid(Base);
      k.base_key = &key_of<Base>;
      k.up = [](void *p) -> void * { return static_cast<Base *>(static_cast<T *>(p)); };
    }
    reg().classes.push_back(std::move(k));
  }
  template<typename F, typename... E> class_ &add(bool property, rv_policy policy, const char *name, F f, const E &...e)
  {
    auto c = make_callable<T>(std::move(f));
    c->name = name;
    c->method = true;
    c->property = property;
    c->cls = &typeid(T);
    c->cls_key = &key_of<T>;
    c->policy = policy;
    (extra(*c, e), ...);
    reg().funcs.push_back(std::move(c));
    return *this;
  }
  template<typename F, typename... E> class_ &def(const char *name, F f, const E &...e)
  {
    return add(false, rv_policy::automatic, name, std::move(f), e...);
  }
  template<typename F, typename... E> class_ &def_prop_ro(const char *name, F f, const E &...e)
  {
    return add(true, rv_policy::reference_internal, name, std::move(f), e...);
  }
};
template<typename T> struct enum_
{
  enum_(module_ &, const char *, const char * = nullptr) {}
  enum_ &value(const char *, T) { return *this; }
  enum_ &export_values() { return *this; }
};
template<typename... A> tuple make_tuple(A &&...a)
{
  value v;
  v.kind = value::list;
  (v.items.push_back(caster<std::remove_cv_t<std::remove_reference_t<A>>>::cast(std::forward<A>(a), rv_policy::automatic, nullptr)), ...);
  return tuple(std::move(v));
}
inline void set_leak_warnings(bool) {}
#define NB_MODULE(name, variable)                      \
  void nb_module_##name(nanobind::module_ &variable);  \
  void nb_module_##name(nanobind::module_ &variable)
}// namespace nanobind
#include <nanobind/ndarray.h>
