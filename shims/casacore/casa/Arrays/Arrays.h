// Stand-in for casacore's arrays: column-major; copying an array refers to the
// same values, assigning to one copies the values (after taking over the shape
// when it is empty).
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <vector>
#include <casacore/casa/BasicSL/Constants.h>
namespace casacore {
enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };
class IPosition {
 public:
  IPosition(size_t n, long a, long b = 1, long c = 1) : v_{a, b, c}, n_(n) {}
  long operator[](size_t i) const { return v_[i]; }
  long operator()(size_t i) const { return v_[i]; }
  size_t nelements() const { return n_; }
 private:
  long v_[3];
  size_t n_;
};
template <class T>
class Block {
 public:
  Block(size_t n, T v) : d_(n, Cell{v}) {}
  T& operator[](size_t i) { return d_[i].v; }
  const T& operator[](size_t i) const { return d_[i].v; }
 private:
  struct Cell { T v; };
  std::vector<Cell> d_;
};
template <class T>
class Array3 {
 public:
  Array3() : n_{0, 0, 0}, p_(nullptr) {}
  Array3(size_t a, size_t b, size_t c) : n_{a, b, c}, own_(new std::vector<T>(a * b * c)), p_(own_->data()) {}
  Array3(const Array3& o) = default;
  Array3& operator=(const Array3& o) {
    if (this == &o) return *this;
    if (size() == 0) { n_[0] = o.n_[0]; n_[1] = o.n_[1]; n_[2] = o.n_[2]; own_.reset(new std::vector<T>(o.size())); p_ = own_->data(); }
    if (n_[0] != o.n_[0] || n_[1] != o.n_[1] || n_[2] != o.n_[2]) throw std::runtime_error("array conformance");
    for (size_t i = 0; i < size(); ++i) p_[i] = o.p_[i];
    return *this;
  }
  size_t size() const { return n_[0] * n_[1] * n_[2]; }
  T* data() { return p_; }
  const T* data() const { return p_; }
  long nrow() const { return n_[0]; }
  long ncolumn() const { return n_[1]; }
  long nplane() const { return n_[2]; }
 protected:
  size_t n_[3];
  std::shared_ptr<std::vector<T>> own_;
  T* p_;
};
template <class T>
class Matrix : public Array3<T> {
 public:
  Matrix() {}
  Matrix(size_t a, size_t b) : Array3<T>(a, b, 1) {}
  Matrix(const IPosition& s, T* p, StorageInitPolicy policy) : Array3<T>() {
    if (policy != SHARE) throw std::runtime_error("only SHARE");
    this->n_[0] = s[0]; this->n_[1] = s[1]; this->n_[2] = 1; this->p_ = p;
  }
  T& operator()(size_t i, size_t j) { return this->p_[i + this->n_[0] * j]; }
  const T& operator()(size_t i, size_t j) const { return this->p_[i + this->n_[0] * j]; }
};
template <class T>
class Cube : public Array3<T> {
 public:
  Cube() {}
  Cube(size_t a, size_t b, size_t c) : Array3<T>(a, b, c) {}
  T& operator()(size_t i, size_t j, size_t k) { return this->p_[i + this->n_[0] * (j + this->n_[1] * k)]; }
  const T& operator()(size_t i, size_t j, size_t k) const { return this->p_[i + this->n_[0] * (j + this->n_[1] * k)]; }
};
template <class T>
class Vector : public Array3<T> {
 public:
  Vector() {}
  explicit Vector(size_t a) : Array3<T>(a, 1, 1) {}
  T& operator()(size_t i) { return this->p_[i]; }
  T& operator[](size_t i) { return this->p_[i]; }
};
template <class T>
Matrix<T> transpose(const Matrix<T>& a) {
  Matrix<T> r(a.ncolumn(), a.nrow());
  for (long i = 0; i < a.nrow(); ++i) for (long j = 0; j < a.ncolumn(); ++j) r(j, i) = a(i, j);
  return r;
}
template <class T>
Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) {
  if (a.ncolumn() != b.nrow()) throw std::runtime_error("product: shapes");
  Matrix<T> r(a.nrow(), b.ncolumn());
  for (long i = 0; i < a.nrow(); ++i)
    for (long j = 0; j < b.ncolumn(); ++j) {
      T s = 0;
      for (long k = 0; k < a.ncolumn(); ++k) s += a(i, k) * b(k, j);
      r(i, j) = s;
    }
  return r;
}
}
