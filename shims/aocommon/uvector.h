// Stand-in for the absent aocommon header: a vector whose elements are not
// initialised on growth.  The standard vector satisfies the same contract.
#pragma once
#include <vector>
namespace aocommon {
template <class T, class A = std::allocator<T>>
class UVector : public std::vector<T, A> { public: using std::vector<T, A>::vector; };
// unlike std::vector<bool>, one bool per element
template <class A>
class UVector<bool, A> : public std::vector<unsigned char> {
 public:
  using std::vector<unsigned char>::vector;
  bool* data() { return reinterpret_cast<bool*>(std::vector<unsigned char>::data()); }
  const bool* data() const { return reinterpret_cast<const bool*>(std::vector<unsigned char>::data()); }
};
}
