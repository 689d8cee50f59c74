// Contracts of the Python bindings of boxes, grids, transformations and
// reference systems.
// LINK: *
#include "bindings.h"
#include QV_WRAP(common.cpp)
using namespace qugar;
using namespace qugar::impl;
namespace {
void bind()
{
  py::module_ m;
  qugar::wrappers::common(m);
}
template<int D> V numbers_(const Point<D> &p, int how)
{
  if (how < 2) return arr(p, how == 1);
  std::vector<V> l;
  for (int i = 0; i < D; ++i) l.push_back(py::real_(p(i)));
  return py::list_(l);
}
template<int D> void same_box(const V &v, const BoundBox<D> &b, const char *tag)
{
  const auto &x = as<BoundBox<D>>(v);
  for (int i = 0; i < D; ++i) {
    qv_check_eq(x.min(i), b.min(i), tag);
    qv_check_eq(x.max(i), b.max(i), tag);
  }
}
template<int D> void box()
{
  bind();
  const auto lo = point<D>("a"), hi = point<D>("b");
  for (int i = 0; i < D; ++i) qv_assume(lo(i) < hi(i));
  const int how = qv::each("how", 0, 2), how2 = how == 2 ? 2 : qv::each("how2", 0, 1);
  V b = made("create_bound_box", {}, { { "min_corner", numbers_<D>(lo, how) }, { "max_corner", numbers_<D>(hi, how2) } });
  const BoundBox<D> g(lo, hi);
  same_box<D>(b, g, "the box of these corners");
  same_array<D>(prop(b, "min_corner"), lo, "min corner");
  same_array<D>(prop(b, "max_corner"), hi, "max corner");
  same_array<D>(prop(b, "mid_point"), g.mid_point(), "mid point");
  qv_check_eq(prop(b, "volume").d, g.volume(), "volume");
  const int d = qv::each("d", 0, D - 1);
  qv_check_eq(made("length", { b, py::int_(d) }).d, hi(d) - lo(d), "length");
  const V a = made("as_array", { b });
  qv_check(is_array<real>(a, { D, 2 }), "array of the corners");
  for (int i = 0; i < D; ++i) {
    qv_check_eq(item<real>(a, i, 0), lo(i), "min corner in the array");
    qv_check_eq(item<real>(a, i, 1), hi(i), "max corner in the array");
  }
}
// array of the breaks outlives the grid's Python object
template<int D> void grid()
{
  bind();
  // breaks: arrays (contiguous or not), lists, or box and number of cells
  const int how = qv::each("how", 0, 3);
  std::array<std::vector<real>, D> br;
  std::array<std::size_t, D> n{};
  std::vector<V> items;
  for (int i = 0; i < D; ++i) {
    auto &b = br[static_cast<std::size_t>(i)];
    n[static_cast<std::size_t>(i)] = static_cast<std::size_t>(i == 0 ? qv::each("n", 1, 3) : 1 + i);
    if (how < 3) {
      for (std::size_t k = 0; k <= n[static_cast<std::size_t>(i)]; ++k) {
        b.push_back(qv_real(qv::idx2("b", i, static_cast<int>(k))));
        if (k > 0) qv_assume(b[k] >= b[k - 1] + 0.25);
      }
      std::vector<V> l;
      for (real x : b) l.push_back(py::real_(x));
      items.push_back(how == 2 ? py::list_(l) : py::array_(b, { static_cast<std::int64_t>(b.size()) }, how));
    } else items.push_back(py::int_(static_cast<std::int64_t>(n[static_cast<std::size_t>(i)])));
  }
  V g;
  std::unique_ptr<CartGridTP<D>> own;
  if (how < 3) {
    g = made("create_cart_grid", { py::list_(items) });
    own = std::make_unique<CartGridTP<D>>(br);
  } else {
    const auto box = std::make_shared<BoundBox<D>>(Point<D>(-1.0), Point<D>(3.0));
    g = made("create_cart_grid", { wrap(box) }, { { "n_cells_dir", py::list_(items) } });
    own = std::make_unique<CartGridTP<D>>(*box, n);
  }
  const V dom = prop(g, "domain");
  same_box<D>(dom, own->get_domain(), "domain");
  const V dim = prop(g, "dim");
  qv_check(dim.kind == V::integer && dim.i == D, "dimension");
  same_items<int>(prop(g, "num_cells_dir"), n, "number of cells per direction");
  const int c = qv::each("c", 0, 1);
  const int last = static_cast<int>(own->get_num_cells()) - 1;
  same_box<D>(made("get_cell_domain", { g, py::int_(c == 0 ? 0 : last) }), own->get_cell_domain(c == 0 ? 0 : last), "domain of a cell");
  const int f = qv::each("f", 0, 2 * D - 1);
  same_items<std::int64_t>(made("get_boundary_cells", { g, py::int_(f) }), own->get_boundary_cells(f), "boundary cells");
  const V b = prop(g, "cell_breaks");
  qv_check(b.kind == V::list && b.items.size() == D, "breaks of every direction");
  g = V();
  for (int i = 0; i < D; ++i) same_items<real>(b.items[static_cast<std::size_t>(i)], own->get_breaks(i), "breaks");
}
template<int D> void transformation()
{
  bind();
  constexpr int N = AffineTransf<D>::n_coefs;
  const auto o = point<D>("o"), x = point<D>("x");
  // in both dimensions the axes are given; a third one of them is not checked
  const auto ax = point<D>("a"), ay = point<D>("y");
  std::array<real, 3> s{ qv_real("s0"), qv_real("s1"), qv_real("s2") };
  for (real k : s) qv_assume(k >= 0.25);
  const int how = qv::each("how", D == 2 ? 0 : 1, 5);
  std::vector<V> args;
  std::unique_ptr<AffineTransf<D>> t;
  if (how == 0) t = std::make_unique<AffineTransf<D>>();
  else if (how == 1) {
    args = { arr(o) };
    t = std::make_unique<AffineTransf<D>>(o);
  } else if (how == 2) {
    args = { arr(o), py::real_(s[0]) };
    t = std::make_unique<AffineTransf<D>>(o, s[0]);
  } else if (how == 5) {
    Vector<real, N> k;
    std::vector<real> kk;
    for (int i = 0; i < N; ++i) kk.push_back(k(i) = qv_real(qv::idx("k", i)));
    // an affinity that can be inverted
    for (int i = 0; i < D; ++i)
      for (int j = 0; j < D; ++j) qv_assume(i == j ? k(i * D + j) >= 0.25 : k(i * D + j) == 0.0);
    args = { py::array_(kk, { N }, qv::each("gap", 0, 1)) };
    t = std::make_unique<AffineTransf<D>>(k);
  } else {
    if constexpr (D == 2) {
      qv_assume(ax(0) * ax(0) + ax(1) * ax(1) >= 0.25);
      args = { arr(o), arr(ax) };
      if (how == 4) args.push_back(py::real_(s[0])), args.push_back(py::real_(s[1]));
      t = how == 3 ? std::make_unique<AffineTransf<D>>(o, ax) : std::make_unique<AffineTransf<D>>(o, ax, s[0], s[1]);
    } else {
      // axes in the planes of two coordinates
      qv_assume(ax(0) >= 0.25 && ax(1) == 0.0 && ax(2) == 0.0 && ay(2) == 0.0 && ay(1) >= 0.25);
      args = { arr(o), arr(ax), arr(ay) };
      if (how == 4)
        for (real k : s) args.push_back(py::real_(k));
      t = how == 3 ? std::make_unique<AffineTransf<D>>(o, ax, ay) : std::make_unique<AffineTransf<D>>(o, ax, ay, s[0], s[1], s[2]);
    }
  }
  const V v = made("create_affine_transformation", args);
  const auto y = as<AffineTransf<D>>(v).transform_point(x), z = t->transform_point(x);
  for (int i = 0; i < D; ++i) qv_check_eq(y(i), z(i), "the transformation of these arguments");
}
template<int D> void system()
{
  bind();
  const auto o = point<D>("o"), ax = point<D>("a"), ay = point<D>("y");
  const int how = qv::each("how", D == 2 ? 0 : 1, D == 2 ? 2 : 3);
  std::vector<V> args;
  std::unique_ptr<RefSystem<D>> t;
  real l = 0.0;
  for (int i = 0; i < D; ++i) l += ax(i) * ax(i);
  qv_assume(l >= 0.25);
  if (how == 0) t = std::make_unique<RefSystem<D>>();
  else if (how == 1) {
    args = { arr(o) };
    t = std::make_unique<RefSystem<D>>(o);
  } else if (how == 2) {
    args = { arr(o), arr(ax) };
    t = std::make_unique<RefSystem<D>>(o, ax);
  } else if constexpr (D == 3) {
    qv_assume(ax(0) >= 0.25 && ax(1) == 0.0 && ax(2) == 0.0 && ay(2) == 0.0 && ay(1) >= 0.25);
    args = { arr(o), arr(ax), arr(ay) };
    t = std::make_unique<RefSystem<D>>(o, ax, ay);
  }
  const V v = made("create_ref_system", args);
  const auto &r = as<RefSystem<D>>(v);
  for (int i = 0; i < D; ++i) {
    qv_check_eq(r.get_origin()(i), t->get_origin()(i), "origin of the system");
    for (int j = 0; j < D; ++j) qv_check_eq(r.get_basis()[static_cast<std::size_t>(i)](j), t->get_basis()[static_cast<std::size_t>(i)](j), "axes of the system");
  }
}
}// namespace
HARNESS(box2) { box<2>(); }
HARNESS(box3) { box<3>(); }
HARNESS(n_grid2) { grid<2>(); }
HARNESS(n_grid3) { grid<3>(); }
HARNESS(affine2) { transformation<2>(); }
HARNESS(affine3) { transformation<3>(); }
HARNESS(system2) { system<2>(); }
HARNESS(system3) { system<3>(); }
