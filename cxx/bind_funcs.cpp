// Contracts of the Python bindings of the implicit functions: what a function
// of the module returns is the C++ function of that name with the arguments
// where their names say, and what its properties say is what it was made of.
// LINK: *
#include "bindings.h"
#include QV_WRAP(impl_functions.cpp)
using namespace qugar;
using namespace qugar::impl;
namespace {
void bind()
{
  py::module_ m;
  qugar::wrappers::impl_functions(m);
}
template<int D> const ImplicitFunc<D> &func(const V &v)
{
  const void *p = py::part(v, &typeid(ImplicitFunc<D>));
  qv_check(p != nullptr, "an implicit function");
  qv_assume(p != nullptr);
  return *static_cast<const ImplicitFunc<D> *>(p);
}
// the same function in a point, and of the kind that was asked for
template<int D> void same_func(const V &v, const ImplicitFunc<D> &g, const Point<D> &x, const char *tag)
{
  const auto &f = func<D>(v);
  qv_check_eq(f(x), g(x), tag);
  qv_check((is_bezier<D, 1>(f)) == (is_bezier<D, 1>(g)), "Bezier if it was asked for");
}
// a function of which every value is seen
template<int D> struct Phi final : ImplicitFunc<D>
{
  using I = ::algoim::Interval<D>;
  real c;
  explicit Phi(real k) : c(k) {}
  real operator()(const Point<D> &x) const override
  {
    real v = c;
    for (int i = 0; i < D; ++i) v = v * 3.0 + x(i);
    return v;
  }
  I operator()(const Point<D, I> &) const override { return I(0.0); }
  Vector<real, D> grad(const Point<D> &x) const override
  {
    Vector<real, D> g;
    for (int i = 0; i < D; ++i) g(i) = c + (i + 2) * x(i);
    return g;
  }
  Vector<I, D> grad(const Point<D, I> &) const override { return Vector<I, D>(I(0.0)); }
  Vector<real, D *(D + 1) / 2> hessian(const Point<D> &) const override { return Vector<real, D *(D + 1) / 2>(0.0); }
};
template<int D> V phi(real c)
{
  std::shared_ptr<const ImplicitFunc<D>> p = std::make_shared<Phi<D>>(c);
  return py::caster<std::shared_ptr<const ImplicitFunc<D>>>::cast(p, py::rv_policy::automatic, nullptr);
}
template<int D> void evaluated()
{
  bind();
  const real c = qv_real("c");
  const int n = qv::each("n", 0, 3);
  // C array, or a view of a longer one, which has to be read as such
  const bool gap = qv::each("gap", 0, 1) == 1;
  const V f = phi<D>(c);
  std::vector<real> x;
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < D; ++d) x.push_back(qv_real(qv::idx2("x", i, d)));
  const V pts = py::array_(x, { n, D }, gap ? 1 : 0);
  V v, g;
  qv_check(py::call("eval", { f, pts }, v) && py::call("grad", { f, pts }, g), "points are taken");
  qv_check(v.kind == V::array && v.a->type == py::dtype::f64 && v.a->shape.size() == 1 && v.a->shape[0] == n, "a value per point");
  qv_check(g.kind == V::array && g.a->type == py::dtype::f64 && g.a->shape.size() == 2 && g.a->shape[0] == n && g.a->shape[1] == D, "a gradient per point");
  const auto &phi = func<D>(f);
  for (int i = 0; i < n; ++i) {
    Point<D> p;
    for (int d = 0; d < D; ++d) p(d) = x[static_cast<std::size_t>(i * D + d)];
    qv_check_eq(static_cast<real *>(v.a->data)[i * v.a->strides[0]], phi(p), "value in the point");
    const auto gp = phi.grad(p);
    for (int d = 0; d < D; ++d) qv_check_eq(static_cast<real *>(g.a->data)[i * g.a->strides[0] + d * g.a->strides[1]], gp(d), "gradient in the point");
  }
  const V dim = prop(f, "dim");
  qv_check(dim.kind == V::integer && dim.i == D, "dimension");
}
// use_bzr: true, false, or left out (which means true)
bool bzr(std::vector<V> &args)
{
  const int how = qv::each("bzr", 0, 2);
  if (how < 2) args.push_back(py::bool_(how == 1));
  return how > 0;
}
template<int D, typename F, typename FB> void ball(const char *name)
{
  bind();
  const real r = qv_real("r");
  qv_assume(r > 0.0);
  const Point<D> c = point<D>("c"), x = point<D>("x");
  const bool with = qv::each("with", 0, 1) == 1;
  std::vector<V> args{ py::real_(r) };
  if (with) args.push_back(arr(c, qv::each("gap", 0, 1) == 1));
  const bool b = bzr(args);
  const V f = made(name, args);
  const Point<D> cc = with ? c : Point<D>(0.0);
  if (b) same_func<D>(f, FB(r, cc), x, "the ball of this radius and centre");
  else same_func<D>(f, F(r, cc), x, "the ball of this radius and centre");
  qv_check_eq(prop(f, "radius").d, r, "radius");
  same_array<D>(prop(f, "center"), cc, "centre");
}
template<int D, typename F, typename FB> void ellipsoid(const char *name)
{
  bind();
  const Point<D> a = point<D>("a"), o = point<D>("o"), x = point<D>("x");
  for (int i = 0; i < D; ++i) qv_assume(a(i) > 0.0);
  const bool with = qv::each("with", 0, 1) == 1;
  std::vector<V> args{ arr(a) };
  const auto sys = std::make_shared<RefSystem<D>>(with ? o : Point<D>(0.0));
  if (with) args.push_back(py::caster<std::shared_ptr<RefSystem<D>>>::cast(sys, py::rv_policy::automatic, nullptr));
  const bool b = bzr(args);
  const V f = made(name, args);
  if (b) same_func<D>(f, FB(a, *sys), x, "the ellipsoid of these semi-axes");
  else same_func<D>(f, F(a, *sys), x, "the ellipsoid of these semi-axes");
  same_array<D>(prop(f, "semi_axes"), a, "semi-axes");
}
template<int D, typename F, typename FB> void plane(const char *name)
{
  bind();
  const Point<D> o = point<D>("o"), n = point<D>("n"), x = point<D>("x");
  real l = 0.0;
  for (int i = 0; i < D; ++i) l += n(i) * n(i);
  qv_assume(l >= 0.25);
  const bool with = qv::each("with", 0, 1) == 1;
  std::vector<V> args;
  if (with) args = { arr(o), arr(n, true) };
  const bool b = bzr(args);
  const V f = made(name, args);
  const F g = with ? F(o, n) : F();
  const FB gb = with ? FB(o, n) : FB();
  if (b) same_func<D>(f, gb, x, "the plane with this point and normal");
  else same_func<D>(f, g, x, "the plane with this point and normal");
  same_array<D>(prop(f, "origin"), b ? gb.origin() : g.origin(), "origin");
  same_array<D>(prop(f, "normal"), b ? gb.normal() : g.normal(), "normal");
}
template<int D> V transformation(const AffineTransf<D> &t)
{
  return py::caster<std::shared_ptr<AffineTransf<D>>>::cast(std::make_shared<AffineTransf<D>>(t), py::rv_policy::automatic, nullptr);
}
template<int D> AffineTransf<D> moved()
{
  const real s = qv_real("s");
  qv_assume(s >= 0.25);
  return AffineTransf<D>(point<D>("t"), s);
}
template<int D> void square()
{
  bind();
  const Point<D> x = point<D>("x");
  const bool with = qv::each("with", 0, 1) == 1;
  if (with) {
    const auto t = moved<D>();
    same_func<D>(made("create_square", { transformation<D>(t) }), funcs::Square<D>(t), x, "the transformed box");
  } else same_func<D>(made(D == 2 ? "create_square_2D" : "create_square_3D", {}), funcs::Square<D>(), x, "the box");
}
template<int D> void constant()
{
  bind();
  const real v = qv_real("v");
  std::vector<V> args{ py::real_(v) };
  const bool b = bzr(args);
  const V f = made(D == 2 ? "create_constant_2D" : "create_constant_3D", args);
  const Point<D> x = point<D>("x");
  if (b) same_func<D>(f, funcs::ConstantBzr<D>(v), x, "the constant");
  else same_func<D>(f, funcs::Constant<D>(v), x, "the constant");
  qv_check_eq(prop(f, "value").d, v, "value");
}
// list or array of numbers
template<int N> V numbers_(const std::array<real, N> &c)
{
  const int how = qv::each("how", 0, 2);
  if (how < 2) return py::array_(std::vector<real>(c.begin(), c.end()), { N }, how);
  std::vector<V> l;
  for (real k : c) l.push_back(py::real_(k));
  return py::list_(l);
}
template<int D> void dim_linear()
{
  bind();
  constexpr int N = funcs::DimLinear<D>::num_coeffs;
  std::array<real, N> c;
  for (int i = 0; i < N; ++i) c[static_cast<std::size_t>(i)] = qv_real(qv::idx("c", i));
  const bool with = qv::each("with", 0, 1) == 1;
  const Point<D> x = point<D>("x");
  std::vector<V> args{ numbers_<N>(c) };
  if (with) {
    const auto t = moved<D>();
    args.push_back(transformation<D>(t));
    same_func<D>(made("create_dim_linear", args), funcs::DimLinear<D>(c, t), x, "the transformed linear function");
  } else same_func<D>(made("create_dim_linear", args), funcs::DimLinear<D>(c), x, "the linear function");
}
template<int D> void combined()
{
  bind();
  const int what = qv::each("what", 0, 3);
  // a Bezier function, or another one
  const bool bz = qv::each("bezier", 0, 1) == 1, bz2 = what > 1 && qv::each("bezier2", 0, 1) == 1;
  const real a = qv_real("a"), b = qv_real("b");
  const Point<D> x = point<D>("x"), z(0.0);
  const char *plane = D == 2 ? "create_line" : "create_plane";
  Point<D> n(0.0);
  n(1) = 2.0;
  Point<D> o(0.0);
  o(1) = a;
  const V f = bz ? made(plane, { arr(o), arr(n) }) : phi<D>(a);
  const real fx = func<D>(f)(x);
  if (what == 0) {
    const V g = made("create_negative", { f });
    qv_check_eq(func<D>(g)(x), -fx, "the negative of the function");
    qv_check((is_bezier<D, 1>(func<D>(g))) == bz, "the negative of a Bezier function is one");
    return;
  }
  if (what == 1) {
    const auto t = moved<D>();
    const V g = made("create_affinely_transformed", { f, transformation<D>(t) });
    funcs::TransformedFunction<D> h(std::const_pointer_cast<const ImplicitFunc<D>>(std::shared_ptr<const ImplicitFunc<D>>(f.keep, &func<D>(f))), t);
    qv_check_eq(func<D>(g)(x), h(x), "the transformed function");
    return;
  }
  const V f2 = bz2 ? made(D == 2 ? "create_constant_2D" : "create_constant_3D", { py::real_(b) }) : phi<D>(b);
  const real fx2 = func<D>(f2)(x);
  const V g = made(what == 2 ? "create_functions_addition" : "create_functions_subtraction", { f, f2 });
  qv_check_eq(func<D>(g)(x), what == 2 ? fx + fx2 : fx - fx2, "sum or difference in the order given");
  qv_check((is_bezier<D, 1>(func<D>(g))) == (bz && bz2), "of Bezier functions: one of them");
}
template<template<int> typename F> void surface(const char *name)
{
  bind();
  const bool three = qv::each("three", 0, 1) == 1;
  if (three) {
    const std::array<real, 3> p{ 1.0, 2.0, 3.0 };
    const Point<3> x{ 0.125, 0.25, 0.375 };
    same_func<3>(made(name, { numbers_<3>(p) }), F<3>(Point<3>{ 1.0, 2.0, 3.0 }), x, "the surface of these periods");
  } else {
    const std::array<real, 2> p{ 1.0, 2.0 };
    std::vector<V> args{ numbers_<2>(p) };
    const bool z = qv::each("z", 0, 1) == 1;
    if (z) args.push_back(py::real_(0.375));
    same_func<2>(made(name, args), F<2>(Point<2>{ 1.0, 2.0 }, z ? 0.375 : 0.0), Point<2>{ 0.125, 0.25 }, "the surface of these periods cut at z");
  }
}
}// namespace
HARNESS(n_eval2) { evaluated<2>(); }
HARNESS(n_eval3) { evaluated<3>(); }
HARNESS(disk) { ball<2, funcs::Sphere<2>, funcs::SphereBzr<2>>("create_disk"); }
HARNESS(sphere) { ball<3, funcs::Sphere<3>, funcs::SphereBzr<3>>("create_sphere"); }
HARNESS(ellipse) { ellipsoid<2, funcs::Ellipsoid<2>, funcs::EllipsoidBzr<2>>("create_ellipse"); }
HARNESS(ellipsoid) { ellipsoid<3, funcs::Ellipsoid<3>, funcs::EllipsoidBzr<3>>("create_ellipsoid"); }
HARNESS(line) { plane<2, funcs::Plane<2>, funcs::PlaneBzr<2>>("create_line"); }
HARNESS(plane) { plane<3, funcs::Plane<3>, funcs::PlaneBzr<3>>("create_plane"); }
HARNESS(square) { square<2>(); }
HARNESS(cube) { square<3>(); }
HARNESS(constant2) { constant<2>(); }
HARNESS(constant3) { constant<3>(); }
HARNESS(dim_linear2) { dim_linear<2>(); }
HARNESS(dim_linear3) { dim_linear<3>(); }
HARNESS(combined2) { combined<2>(); }
HARNESS(combined3) { combined<3>(); }
HARNESS(cylinder)
{
  bind();
  const real r = qv_real("r");
  qv_assume(r > 0.0);
  const Point<3> o = point<3>("o"), ax = point<3>("a"), x = point<3>("x");
  qv_assume(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2) >= 0.25);
  const bool with = qv::each("with", 0, 1) == 1;
  std::vector<V> args{ py::real_(r), arr(o) };
  if (with) args.push_back(arr(ax));
  const bool b = bzr(args);
  const V f = made("create_cylinder", args);
  const auto g = with ? funcs::Cylinder(r, o, ax) : funcs::Cylinder(r, o);
  const auto gb = with ? funcs::CylinderBzr(r, o, ax) : funcs::CylinderBzr(r, o);
  if (b) same_func<3>(f, gb, x, "the cylinder of this radius, origin and axis");
  else same_func<3>(f, g, x, "the cylinder of this radius, origin and axis");
  qv_check_eq(prop(f, "radius").d, r, "radius");
  same_array<3>(prop(f, "origin"), o, "origin");
  same_array<3>(prop(f, "axis"), b ? gb.axis() : g.axis(), "axis");
}
HARNESS(annulus)
{
  bind();
  const real r = qv_real("r"), R = qv_real("R");
  qv_assume(r > 0.0 && R > r);
  const Point<2> c = point<2>("c"), x = point<2>("x");
  const bool with = qv::each("with", 0, 1) == 1;
  std::vector<V> args{ py::real_(r), py::real_(R) };
  if (with) args.push_back(arr(c));
  const bool b = bzr(args);
  const V f = made("create_annulus", args);
  const Point<2> cc = with ? c : Point<2>(0.0);
  if (b) same_func<2>(f, funcs::AnnulusBzr(r, R, cc), x, "the annulus of these radii");
  else same_func<2>(f, funcs::Annulus(r, R, cc), x, "the annulus of these radii");
  qv_check_eq(prop(f, "inner_radius").d, r, "inner radius");
  qv_check_eq(prop(f, "outer_radius").d, R, "outer radius");
  same_array<2>(prop(f, "center"), cc, "centre");
}
HARNESS(torus)
{
  bind();
  const real R = qv_real("R"), r = qv_real("r");
  qv_assume(r > 0.0 && R > r);
  const Point<3> c = point<3>("c"), ax = point<3>("a"), x = point<3>("x");
  qv_assume(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2) >= 0.25);
  const int with = qv::each("with", 0, 2);
  std::vector<V> args{ py::real_(R), py::real_(r) };
  if (with > 0) args.push_back(arr(c));
  if (with > 1) args.push_back(arr(ax));
  const bool b = bzr(args);
  const V f = made("create_torus", args);
  const auto g = with == 0 ? funcs::Torus(R, r) : with == 1 ? funcs::Torus(R, r, c) : funcs::Torus(R, r, c, ax);
  const auto gb = with == 0 ? funcs::TorusBzr(R, r) : with == 1 ? funcs::TorusBzr(R, r, c) : funcs::TorusBzr(R, r, c, ax);
  if (b) same_func<3>(f, gb, x, "the torus of these radii, centre and axis");
  else same_func<3>(f, g, x, "the torus of these radii, centre and axis");
  qv_check_eq(prop(f, "major_radius").d, R, "major radius");
  qv_check_eq(prop(f, "minor_radius").d, r, "minor radius");
  same_array<3>(prop(f, "center"), with > 0 ? c : Point<3>(0.0), "centre");
  same_array<3>(prop(f, "axis"), b ? gb.axis() : g.axis(), "axis");
}
HARNESS(tpms_schoen) { surface<tpms::Schoen>("create_Schoen"); }
HARNESS(tpms_iwp) { surface<tpms::SchoenIWP>("create_SchoenIWP"); }
HARNESS(tpms_frd) { surface<tpms::SchoenFRD>("create_SchoenFRD"); }
HARNESS(tpms_fischer) { surface<tpms::FischerKochS>("create_FischerKochS"); }
HARNESS(tpms_primitive) { surface<tpms::SchwarzPrimitive>("create_SchwarzPrimitive"); }
HARNESS(tpms_diamond) { surface<tpms::SchwarzDiamond>("create_SchwarzDiamond"); }
