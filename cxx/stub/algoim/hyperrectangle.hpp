#ifndef ALGOIM_HYPERRECTANGLE_HPP
#define ALGOIM_HYPERRECTANGLE_HPP
#include <algoim/uvector.hpp>
namespace algoim {
template<typename T, int N> class HyperRectangle
{
  uvector<T, N> range_[2];

public:
  HyperRectangle(const uvector<T, N> &a, const uvector<T, N> &b) { range_[0] = a; range_[1] = b; }
  const uvector<T, N> &side(int s) const { return range_[s]; }
  uvector<T, N> &side(int s) { return range_[s]; }
  const uvector<T, N> &min() const { return range_[0]; }
  const uvector<T, N> &max() const { return range_[1]; }
  uvector<T, N> &min() { return range_[0]; }
  uvector<T, N> &max() { return range_[1]; }
  T min(int d) const { return range_[0](d); }
  T max(int d) const { return range_[1](d); }
  T &min(int d) { return range_[0](d); }
  T &max(int d) { return range_[1](d); }
  uvector<T, N> extent() const { return range_[1] - range_[0]; }
  T extent(int d) const { return range_[1](d) - range_[0](d); }
  uvector<T, N> midpoint() const { return (range_[0] + range_[1]) * T(0.5); }
  T midpoint(int d) const { return (range_[0](d) + range_[1](d)) * T(0.5); }
};
}// namespace algoim
#endif
