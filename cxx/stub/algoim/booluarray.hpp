#ifndef ALGOIM_BOOLUARRAY_HPP
#define ALGOIM_BOOLUARRAY_HPP
#include <algoim/xarray.hpp>
namespace algoim {
template<int N, int E> struct booluarray
{
  bool any{ true };
  booluarray() = default;
  explicit booluarray(bool v) : any(v) {}
};
}// namespace algoim
#endif
