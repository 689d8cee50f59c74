// Contracts of the tensor-product index machinery: flat <-> tensor bijection,
// ordering, ranges, their iteration and their splitting.
#include <cassert>
#include "qvc.h"
#include "repo.h"
#include QV_SRC(tensor_index_tp.cpp)
using namespace qugar;
namespace {
constexpr int MAX2 = 1 << 30;// product of two stays below 2^62
constexpr int MAX3 = 1 << 20;// product of three stays below 2^62
template<int N> constexpr int top() { return N == 3 ? MAX3 : MAX2; }
template<int N> TensorIndexTP<N> any_index(const char *b, int lo, int hi)
{
  return TensorIndexTP<N>(qv::ivec<Vector<int, N>, N>(b, lo, hi));
}
template<int N> void bijection()
{
  const auto n = any_index<N>("n", 1, top<N>());
  const TensorSizeTP<N> sz(n);
  const auto t = any_index<N>("t", 0, top<N>());
  for (int i = 0; i < N; ++i) qv_assume(t(i) < n(i));
  const std::int64_t f = t.flat(n);
  std::int64_t expect = 0, total = 1;
  for (int i = 0; i < N; ++i) {
    expect += t(i) * total;
    total *= n(i);
  }
  qv_check(f == expect, "flat index: first direction runs fastest");
  qv_check(0 <= f && f < total, "flat index is below the number of entries");
  qv_check(static_cast<std::int64_t>(sz.size()) == total, "size is the product of the sizes");
  qv_check(t.flat(sz) == f, "flat index agrees for index-like and size-like bounds");
  const TensorIndexTP<N> back(f, n), back2(f, sz);
  for (int i = 0; i < N; ++i) {
    qv_check(back(i) == t(i), "tensor index of the flat index is the original one");
    qv_check(back2(i) == t(i), "tensor index of the flat index is the original one (size bound)");
  }
}
template<int N> void bijection_back()
{
  const auto n = any_index<N>("n", 1, top<N>());
  std::int64_t total = 1;
  for (int i = 0; i < N; ++i) total *= n(i);
  const std::int64_t f = qv_int("f", 0, std::int64_t{ 1 } << 62);
  qv_assume(f < total);
  const TensorIndexTP<N> t(f, n);
  for (int i = 0; i < N; ++i) qv_check(0 <= t(i) && t(i) < n(i), "tensor index lies inside the sizes");
  qv_check(t.flat(n) == f, "flat index of the tensor index is the original one");
}
template<int N> void order()
{
  const auto a = any_index<N>("a", 0, MAX3), b = any_index<N>("b", 0, MAX3), c = any_index<N>("c", 0, MAX3);
  bool eq = true;
  for (int i = 0; i < N; ++i) eq = eq & (a(i) == b(i));
  qv_check((a == b) == eq, "equality is component-wise");
  qv_check((a != b) == !eq, "inequality is the negation of equality");
  const bool ab = a < b, ba = b < a;
  qv_check(!(a < a), "order is irreflexive");
  qv_check((ab ? 1 : 0) + (ba ? 1 : 0) + (eq ? 1 : 0) == 1, "order is total: exactly one of <, ==, >");
  qv_check(!(ab && (b < c)) || (a < c), "order is transitive");
}
template<int N> void order_flat()
{
  const auto n = any_index<N>("n", 1, top<N>());
  const auto a = any_index<N>("a", 0, top<N>()), b = any_index<N>("b", 0, top<N>());
  for (int i = 0; i < N; ++i) {
    qv_assume(a(i) < n(i));
    qv_assume(b(i) < n(i));
  }
  qv_check((a < b) == (a.flat(n) < b.flat(n)), "order of tensor indices is the order of their flat indices");
}
// position of an in-range index in the iteration sequence
template<int N> std::int64_t rank(const TensorIndexTP<N> &t, const TensorIndexTP<N> &lo, const TensorIndexTP<N> &up)
{
  std::int64_t r = 0, s = 1;
  for (int i = 0; i < N; ++i) {
    r += (t(i) - lo(i)) * s;
    s *= up(i) - lo(i);
  }
  return r;
}
// induction step of the iteration: rank(begin) = 0, ++ adds one, and the last one is followed by end()
template<int N> void iterate_step()
{
  const auto lo = any_index<N>("lo", 0, MAX3), up = any_index<N>("up", 0, MAX3), t = any_index<N>("t", 0, MAX3);
  std::int64_t total = 1;
  for (int i = 0; i < N; ++i) {
    qv_assume(lo(i) <= t(i) && t(i) < up(i));
    total *= up(i) - lo(i);
  }
  const TensorIndexRangeTP<N> r(lo, up);
  qv_check(static_cast<std::int64_t>(r.size()) == total, "number of indices in the range");
  qv_check(rank<N>(*r.begin(), lo, up) == 0, "iteration starts at the lower bound");
  typename TensorIndexRangeTP<N>::Iterator it(t, lo, up);
  qv_check(it.flat() == t.flat(up), "flat index of an iterator is the one of its index");
  qv_check(it != r.end(), "an index of the range is not the end");
  const auto r0 = rank<N>(t, lo, up);
  auto old = it++;
  qv_check(*old == t, "post-increment returns the previous position");
  auto it2 = old;
  ++it2;
  qv_check(it2 == it, "both increments agree");
  if (r0 + 1 == total) qv_check(it == r.end(), "the last index is followed by the end");
  else {
    qv_check(it != r.end(), "iteration does not stop early");
    qv_check(rank<N>(*it, lo, up) == r0 + 1, "every increment moves to the next index");
    qv_check(r.is_in_range(*it), "iteration stays inside the range");
  }
}
template<int N> void empty_range()
{
  const auto lo = any_index<N>("lo", 0, MAX3), up = any_index<N>("up", 0, MAX3);
  bool empty = false;
  for (int i = 0; i < N; ++i) {
    qv_assume(lo(i) <= up(i));
    empty = empty || lo(i) == up(i);
  }
  const TensorIndexRangeTP<N> r(lo, up);
  qv_check((r.size() == 0) == empty, "size is zero exactly when a direction is empty");
  qv_check((r.begin() == r.end()) == empty, "begin is end exactly when the range is empty");
  qv_check((r.cbegin() == r.cend()) == empty, "cbegin is cend exactly when the range is empty");
}
template<int N> void membership()
{
  const auto lo = any_index<N>("lo", 0, MAX3), up = any_index<N>("up", 0, MAX3), t = any_index<N>("t", 0, MAX3);
  bool in = true;
  for (int i = 0; i < N; ++i) {
    qv_assume(lo(i) <= up(i));
    in = in & (lo(i) <= t(i)) & (t(i) < up(i));
  }
  const TensorIndexRangeTP<N> r(lo, up);
  qv_check(r.is_in_range(t) == in, "membership is component-wise and half open");
  for (int i = 0; i < N; ++i) {
    qv_check(r.get_sizes()(i) == up(i) - lo(i), "range sizes");
    qv_check(r.get_lower_bound()(i) == lo(i) && r.get_upper_bound()(i) == up(i), "range bounds");
  }
}
template<int N> void membership_flat()
{
  const auto lo = any_index<N>("lo", 0, MAX3), up = any_index<N>("up", 0, MAX3);
  const auto n = any_index<N>("n", 1, MAX3), t = any_index<N>("t", 0, MAX3);
  bool in = true;
  for (int i = 0; i < N; ++i) {
    qv_assume(lo(i) <= up(i) && up(i) <= n(i));
    qv_assume(t(i) < n(i));
    in = in & (lo(i) <= t(i)) & (t(i) < up(i));
  }
  const TensorIndexRangeTP<N> r(lo, up);
  qv_check(r.is_in_range(t.flat(n), TensorSizeTP<N>(n)) == in, "membership of a flat index");
  std::int64_t total = 1;
  for (int i = 0; i < N; ++i) total *= n(i);
  qv_check(!r.is_in_range(total, TensorSizeTP<N>(n)), "a flat index past the total size is outside");
}
template<int N> void split()
{
  const auto lo = any_index<N>("lo", 0, MAX3), up = any_index<N>("up", 0, MAX3), t = any_index<N>("t", 0, MAX3);
  std::int64_t total = 1;
  for (int i = 0; i < N; ++i) {
    qv_assume(lo(i) <= up(i));
    total *= up(i) - lo(i);
  }
  qv_assume(total > 1);
  const TensorIndexRangeTP<N> r(lo, up);
  const auto ab = r.split();
  const bool a = ab[0].is_in_range(t), b = ab[1].is_in_range(t);
  qv_check((a || b) == r.is_in_range(t), "the halves cover the range and nothing else");
  qv_check(!(a && b), "the halves are disjoint");
  qv_check(ab[0].size() > 0 && ab[1].size() > 0, "both halves are non-empty");
  int longest = 0;
  for (int i = 0; i < N; ++i) longest = std::max(longest, up(i) - lo(i));
  int worst = 0, d = 0;
  for (int i = 0; i < N; ++i) {
    d = ab[0].get_sizes()(i) - ab[1].get_sizes()(i);
    worst = std::max(worst, d < 0 ? -d : d);
    qv_check(ab[0].get_sizes()(i) == up(i) - lo(i) || up(i) - lo(i) == longest, "only a longest direction is split");
  }
  qv_check(worst <= 1, "the halves are as equal as possible");
}
template<int N> void sizes()
{
  const auto a = any_index<N>("a", 0, MAX3), b = any_index<N>("b", 0, MAX3);
  const TensorSizeTP<N> sa(a), sb(b);
  bool eq = true;
  for (int i = 0; i < N; ++i) {
    eq = eq & (a(i) == b(i));
    qv_check((sa + sb)(i) == a(i) + b(i), "sizes add component-wise");
  }
  qv_check((sa == sb) == eq, "size equality is component-wise");
}
}// namespace
HARNESS(bijection1) { bijection<1>(); }
HARNESS(bijection2) { bijection<2>(); }
HARNESS(bijection3) { bijection<3>(); }
HARNESS(back1) { bijection_back<1>(); }
HARNESS(back2) { bijection_back<2>(); }
HARNESS(back3) { bijection_back<3>(); }
HARNESS(order1) { order<1>(); }
HARNESS(order2) { order<2>(); }
HARNESS(order3) { order<3>(); }
HARNESS(order_flat1) { order_flat<1>(); }
HARNESS(order_flat2) { order_flat<2>(); }
HARNESS(order_flat3) { order_flat<3>(); }
HARNESS(step1) { iterate_step<1>(); }
HARNESS(step2) { iterate_step<2>(); }
HARNESS(step3) { iterate_step<3>(); }
HARNESS(empty1) { empty_range<1>(); }
HARNESS(empty2) { empty_range<2>(); }
HARNESS(empty3) { empty_range<3>(); }
HARNESS(member1) { membership<1>(); }
HARNESS(member2) { membership<2>(); }
HARNESS(member3) { membership<3>(); }
HARNESS(member_flat1) { membership_flat<1>(); }
HARNESS(member_flat2) { membership_flat<2>(); }
HARNESS(member_flat3) { membership_flat<3>(); }
HARNESS(split1) { split<1>(); }
HARNESS(split2) { split<2>(); }
HARNESS(split3) { split<3>(); }
HARNESS(sizes1) { sizes<1>(); }
HARNESS(sizes2) { sizes<2>(); }
HARNESS(sizes3) { sizes<3>(); }
HARNESS(hash)
{
  const auto a = any_index<3>("a", 0, MAX3), b = any_index<3>("b", 0, MAX3);
  qv_assume(a == b);
  qv_check(a.hash() == b.hash() && std::hash<TensorIndexTP<3>>{}(a) == b.hash(), "equal indices have equal hashes");
}
