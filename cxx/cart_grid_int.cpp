// Contracts of CartGridTP for grids of any size: the private index range is set
// directly, so that no storage of breaks is involved.
#include <cassert>
#include "qvc.h"
#include "repo.h"
#include <array>
#include <memory>
#include <optional>
#include <string_view>
#include <vector>
#include <functional>
#define private public
#include QV_SRC(tolerance.cpp)
#include QV_SRC(tensor_index_tp.cpp)
#include QV_SRC(bbox.cpp)
#include QV_SRC(cart_grid_tp.cpp)
#undef private
using namespace qugar;
namespace {
template<int N> CartGridTP<N> any_grid(const TensorIndexTP<N> &n)
{
  std::array<std::size_t, N> one;
  one.fill(1);
  CartGridTP<N> g(one);
  g.range_ = TensorIndexRangeTP<N>(n);
  return g;
}
template<int N> void indices()
{
  constexpr int top = N == 3 ? 1 << 20 : 1 << 30;
  const TensorIndexTP<N> n(qv::ivec<Vector<int, N>, N>("n", 1, top));
  const TensorIndexTP<N> t(qv::ivec<Vector<int, N>, N>("t", 0, top));
  for (int i = 0; i < N; ++i) qv_assume(t(i) < n(i));
  const auto g = any_grid<N>(n);
  const std::int64_t f = g.to_flat(t);
  const auto u = g.to_tensor(f);
  for (int i = 0; i < N; ++i) {
    qv_check(u(i) == t(i), "cell indices round trip");
    qv_check(g.get_num_cells_dir()(i) == n(i), "cells per direction");
  }
  qv_check(static_cast<std::int64_t>(g.get_num_cells()) == static_cast<std::int64_t>(TensorSizeTP<N>(n).size()), "number of cells");
  qv_check(f < static_cast<std::int64_t>(g.get_num_cells()), "cell ids are below the number of cells");
  for (int k = 0; k < 2 * N; ++k)
    qv_check(g.on_boundary(f, k) == (k % 2 == 0 ? t(k / 2) == 0 : t(k / 2) == n(k / 2) - 1), "facet on the boundary iff its cell is the first or last one");
}
}// namespace
HARNESS(indices2) { indices<2>(); }
HARNESS(indices3) { indices<3>(); }
HARNESS(n_boundary_large)
{
  TensorIndexTP<2> n;
  n(0) = 2;
  n(1) = qv::integer("n", 1, 2147483646);
  const auto g = any_grid<2>(n);
  for (int side = 0; side < 2; ++side) {
    const auto cs = g.get_boundary_cells(2 + side);
    qv_check(cs.size() == 2, "as many boundary cells as cells across");
    const std::int64_t first = side == 0 ? 0 : 2 * (static_cast<std::int64_t>(n(1)) - 1);
    qv_check(cs[0] == first && cs[1] == first + 1, "boundary cell ids of large grids");
  }
}
HARNESS(n_boundary_large3)
{
  TensorIndexTP<3> n;
  n(0) = 1;
  n(1) = 2;
  n(2) = qv::integer("n", 1, 2147483646);
  const auto g = any_grid<3>(n);
  for (int side = 0; side < 2; ++side) {
    const auto cs = g.get_boundary_cells(4 + side);
    qv_check(cs.size() == 2, "as many boundary cells as cells across");
    const std::int64_t first = side == 0 ? 0 : 2 * (static_cast<std::int64_t>(n(2)) - 1);
    qv_check(cs[0] == first && cs[1] == first + 1, "boundary cell ids of large grids");
  }
}
