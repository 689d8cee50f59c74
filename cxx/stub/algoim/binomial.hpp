#ifndef ALGOIM_BINOMIAL_HPP
#define ALGOIM_BINOMIAL_HPP
#include <algoim/uvector.hpp>
namespace algoim {
namespace detail {
  struct BinomialTable
  {
    double v[40][40]{};
    constexpr BinomialTable()
    {
      for (int n = 0; n < 40; ++n) {
        v[n][0] = 1.0;
        for (int k = 1; k <= n; ++k) v[n][k] = v[n - 1][k - 1] + (k < n ? v[n - 1][k] : 0.0);
      }
    }
  };
  inline constexpr BinomialTable binomial_table{};
}// namespace detail
struct Binomial
{
  static const double *row(int n) { return detail::binomial_table.v[n]; }
};
}// namespace algoim
#endif
