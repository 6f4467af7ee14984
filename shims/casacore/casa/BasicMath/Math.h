// Stand-in for casacore's header (casacore is not installed here): the one
// function the verified code uses, with casacore's documented meaning.
#pragma once
#include <cmath>
#include <limits>
#include <algorithm>
namespace casacore {
#ifdef VF_PROOF
bool near(double, double, double);  // by contract
inline bool near(double a, double b) { return near(a, b, 1e-13); }
#else
inline bool near(double a, double b, double tol = 1.0e-13) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
  if (a == 0) return std::abs(b) <= (1 + tol) * std::numeric_limits<double>::min();
  if (b == 0) return std::abs(a) <= (1 + tol) * std::numeric_limits<double>::min();
  if ((a > 0) != (b > 0)) return false;
  return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b));
}
#endif
}  // namespace casacore
