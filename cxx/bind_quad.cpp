// Contracts of the Python bindings of Gauss rules.
// LINK: *
#include "bindings.h"
#include QV_WRAP(quad.cpp)
using namespace qugar;
namespace {
template<int D> void gauss()
{
  py::module_ m;
  qugar::wrappers::quad(m);
  std::array<int, D> n{};
  std::vector<V> l;
  std::vector<std::int64_t> a;
  for (int d = 0; d < D; ++d) {
    n[static_cast<std::size_t>(d)] = qv::each(qv::idx("n", d), 1, D == 3 ? 2 : 4);
    l.push_back(py::int_(n[static_cast<std::size_t>(d)]));
    a.push_back(n[static_cast<std::size_t>(d)]);
  }
  const int how = qv::each("how", 0, 2);
  V q = made("create_Gauss_quad_01", {}, { { "n_pts_dir", how == 0 ? py::list_(l) : py::array_(a, { D }, how - 1) } });
  const auto own = Quadrature<D>::create_Gauss_01(n);
  const V x = prop(q, "points"), w = prop(q, "weights");
  q = V();
  same_points<D>(x, own->points(), "points of the rule");
  same_items<real>(w, own->weights(), "weights of the rule");
}
}// namespace
HARNESS(n_gauss1) { gauss<1>(); }
HARNESS(n_gauss2) { gauss<2>(); }
HARNESS(n_gauss3) { gauss<3>(); }
