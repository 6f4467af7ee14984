#include "vf.h"
#include <algorithm>
#include "common/Median.h"
template <class T>
static std::string join(const std::vector<T>& v) {
  std::ostringstream o; o.precision(17);
  for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
  return o.str();
}
template <class T>
static void t_med(const std::vector<T>& in, const char* kind) {
  vf::Case k(kind, [&] { return join(in); });
  std::vector<T> v = in, s = in, w;
  std::sort(s.begin(), s.end());
  size_t n = s.size();
  T e = n == 0 ? T(0) : n % 2 ? s[n / 2] : T((s[n / 2] + s[n / 2 - 1]) / T(2));
  T m = dp3::common::Median(v);
  vf::check(m == e || vf::close(double(m), double(e), sizeof(T) == 4 ? 2e-7 : 1e-15), "median of " + std::to_string(n) + " values: got " + vf::str(m) + ", want " + vf::str(e));
  w = v;
  std::sort(w.begin(), w.end());
  vf::check(w == s, "the values themselves changed");
}
template <class T>
static void all(size_t n, int base, const char* kind) {
  std::vector<T> v(n);
  uint64_t tot = 1;
  for (size_t i = 0; i < n; ++i) tot *= base;
  for (uint64_t c = 0; c < tot; ++c) {
    uint64_t x = c;
    for (size_t i = 0; i < n; ++i) { v[i] = T(x % base); x /= base; }
    t_med(v, kind);
  }
}
void vf::search(Rng& r, double secs, bool thorough) {
  for (size_t n = 0; n <= 5; ++n) { all<double>(n, 5, "double"); all<float>(n, 4, "float"); all<int>(n, 5, "int"); }
  all<double>(6, 4, "double");
  all<double>(7, thorough ? 5 : 3, "double");
  all<double>(8, thorough ? 4 : 2, "double");
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 400; ++j) {
      size_t n = r.chance(0.05) ? r.below(3000) : r.below(80);
      std::vector<double> v(n);
      int mode = r.below(7);
      for (size_t i = 0; i < n; ++i) {
        switch (mode) {
          case 0: v[i] = r.real(-10, 10); break;
          case 1: v[i] = double(r.below(1 + n / 2)); break;
          case 2: v[i] = double(i) * (n % 3 ? 1 : -1); break;
          case 3: v[i] = double(r.below(3)); break;
          case 4: v[i] = i < n / 2 ? double(i) : double(n - i); break;
          case 5: v[i] = r.chance(0.05) ? (r.chance(0.5) ? INFINITY : 1e300) : r.real(0, 1); break;
          default: v[i] = double((i * 7919) % (n + 1)); break;
        }
      }
      if (mode != 5 && r.chance(0.3)) t_med(std::vector<float>(v.begin(), v.end()), "float");
      else if (mode == 1 || mode == 3) t_med(std::vector<int>(v.begin(), v.end()), "int");
      else t_med(v, "double");
    }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  std::vector<double> v;
  for (auto& x : a) v.push_back(std::stod(x));
  if (t == "double") t_med(v, "double");
  if (t == "float") t_med(std::vector<float>(v.begin(), v.end()), "float");
  if (t == "int") t_med(std::vector<int>(v.begin(), v.end()), "int");
}
