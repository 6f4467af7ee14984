// stand-in for aocommon's OptionalNumber: a number that may be absent
#pragma once
#include <cassert>
#include <limits>
namespace aocommon {
template <typename T>
class OptionalNumber {
 public:
  OptionalNumber() : v(std::numeric_limits<T>::max()) {}
  OptionalNumber(T x) : v(x) {}
  explicit operator bool() const { return v != std::numeric_limits<T>::max(); }
  T operator*() const { return v; }
  bool HasValue() const { return bool(*this); }
 private:
  T v;
};
}
