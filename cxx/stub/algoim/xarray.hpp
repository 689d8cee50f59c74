// Stand-in for algoim/xarray.hpp: a view over external storage, last index fastest.
#ifndef ALGOIM_XARRAY_HPP
#define ALGOIM_XARRAY_HPP
#include <algoim/uvector.hpp>
#define ALGOIM_M 8
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext) : data_(data), ext_(ext) {}
  xarray(const xarray &x) = default;
  T *data() { return data_; }
  const T *data() const { return data_; }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int i) const { return ext_(i); }
  int size() const { return prod(ext_); }
  T &operator[](int i) { return data_[i]; }
  const T &operator[](int i) const { return data_[i]; }
};
// algoim_spark_alloc: scratch memory; leaks in this stand-in.
inline void spark_alloc_one(real **p, int n) { *p = new real[static_cast<std::size_t>(n > 0 ? n : 1)]; }
}// namespace algoim
#define algoim_spark_alloc(T, p0, n0, p1, n1) spark_alloc_one(p0, n0); ::algoim::spark_alloc_one(p1, n1)
#endif
