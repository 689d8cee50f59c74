// What the harnesses of the Python bindings share.
#pragma once
#include <cassert>
#include "qvc.h"
#include "repo.h"
#include <nanobind/nanobind.h>
#include <qugar/point.hpp>
#include <qugar/types.hpp>
#include <array>
#include <memory>
#include <vector>
namespace py = nanobind;
using V = py::value;
namespace {
using Kw = std::vector<std::pair<const char *, V>>;
inline V made(const char *name, std::vector<V> args, const Kw &kw = {})
{
  V out;
  const bool ok = py::call(name, std::move(args), out, false, kw);
  qv_check(ok, "some overload takes the arguments");
  qv_assume(ok);
  return out;
}
inline V prop(const V &self, const char *name)
{
  V out;
  const bool ok = py::call(name, { self }, out, true);
  qv_check(ok, "the property exists");
  qv_assume(ok);
  return out;
}
template<typename T> const T &as(const V &v)
{
  const void *p = py::part(v, &typeid(T));
  qv_check(p != nullptr, "an object of the class");
  qv_assume(p != nullptr);
  return *static_cast<const T *>(p);
}
// the Python object of a C++ one
template<typename T> V wrap(std::shared_ptr<T> p) { return py::caster<std::shared_ptr<T>>::cast(p, py::rv_policy::automatic, nullptr); }
template<int D> qugar::Point<D> point(const char *n) { return qv::vec<qugar::Point<D>, D>(n); }
// numpy array; every second element of a longer one, if gap
template<int D> V arr(const qugar::Point<D> &p, bool gap = false)
{
  std::vector<qugar::real> x;
  for (int i = 0; i < D; ++i) x.push_back(p(i));
  return py::array_(x, { D }, gap ? 1 : 0);
}
template<typename T> T item(const V &v, std::int64_t i, std::int64_t j = 0)
{
  return static_cast<const T *>(v.a->data)[i * v.a->strides[0] + (v.a->shape.size() > 1 ? j * v.a->strides[1] : 0)];
}
template<typename T> bool is_array(const V &v, std::vector<std::int64_t> shape)
{
  return v.kind == V::array && v.a->type == py::dtype_of<T>() && v.a->shape == shape;
}
template<int D> void same_array(const V &v, const qugar::Point<D> &p, const char *tag)
{
  qv_check(is_array<qugar::real>(v, { D }), "an array of a number per direction");
  for (int i = 0; i < D; ++i) qv_check_eq(item<qugar::real>(v, i), p(i), tag);
}
template<typename T, typename C> void same_items(const V &v, const C &c, const char *tag)
{
  const bool ok = is_array<T>(v, { static_cast<std::int64_t>(c.size()) });
  qv_check(ok, "an array with as many items");
  qv_assume(ok);
  std::int64_t i = 0;
  for (const auto &x : c) qv_check(item<T>(v, i++) == x, tag);
}
template<int D> void same_points(const V &v, const std::vector<qugar::Point<D>> &c, const char *tag)
{
  const bool ok = is_array<qugar::real>(v, { static_cast<std::int64_t>(c.size()), D });
  qv_check(ok, "an array with a row per point");
  qv_assume(ok);
  for (std::size_t i = 0; i < c.size(); ++i)
    for (int d = 0; d < D; ++d) qv_check_eq(item<qugar::real>(v, static_cast<std::int64_t>(i), d), c[i](d), tag);
}
}// namespace
