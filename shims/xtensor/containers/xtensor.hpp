// Stand-in for the absent xtensor header: a row-major array with N dimensions.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <vector>
namespace xt {
template <class T, size_t N>
class xtensor {
 public:
  xtensor() : shape_{}, data_() {}
  explicit xtensor(const std::array<size_t, N>& s) : xtensor() { resize(s); }
  void resize(const std::array<size_t, N>& s) { shape_ = s; size_t n = 1; for (size_t x : s) n *= x; data_.resize(n); }
  void fill(const T& v) { std::fill(data_.begin(), data_.end(), v); }
  size_t shape(size_t k) const { return shape_[k]; }
  size_t size() const { return data_.size(); }
  T* data() { return data_.data(); }
  const T* data() const { return data_.data(); }
  T& operator()(size_t i, size_t j) { return data_[i * shape_[1] + j]; }
  const T& operator()(size_t i, size_t j) const { return data_[i * shape_[1] + j]; }
 private:
  std::array<size_t, N> shape_;
  std::vector<T> data_;
};
}
