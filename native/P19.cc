#include "vf.h"
#include <algorithm>
#include "ddecal/constraints/KernelSmoother.h"
using dp3::ddecal::KernelSmoother;
typedef std::complex<double> C;
static std::string vs(const std::vector<double>& v) { std::string s = std::to_string(v.size()); for (double x : v) s += " " + vf::str(x); return s; }
// the kernels as documented
static double kern(int type, double x, bool trunc) {
  switch (type) {
    case 0: return std::abs(x) <= 1 ? 0.5 : 0;
    case 1: return std::abs(x) <= 1 ? 1 - std::abs(x) : 0;
    case 2: return trunc && std::abs(x) > 1 ? 0 : std::exp(-9 * x * x);
    default: return std::abs(x) <= 1 ? 0.75 * (1 - x * x) : 0;
  }
}
template <class T> static T value(vf::Rng& r);
template <> double value<double>(vf::Rng& r) { return r.real(-5, 5); }
template <> C value<C>(vf::Rng& r) { return C(r.real(-5, 5), r.real(-5, 5)); }
static bool isnan_(double x) { return std::isnan(x); }
static bool isnan_(C x) { return std::isnan(x.real()) && std::isnan(x.imag()); }

static void t_kernel(int type, double bw, double d, bool trunc) {
  vf::Case k("kernel", [&] { return std::to_string(type) + " " + vf::str(bw) + " " + vf::str(d) + " " + std::to_string(trunc); });
  typedef KernelSmoother<double, double> S;
  S s({1.0}, S::KernelType(type), bw, 0, 0, trunc);
  double want = kern(type, d / bw, trunc);
  vf::check(vf::close(s.Kernel(d), want, 1e-12), "Kernel gives " + vf::str(s.Kernel(d)) + ", want " + vf::str(want));
}

// output i of the smoother, for the window [start, end)
template <class T>
static bool mean(const std::vector<double>& f, const std::vector<T>& data, const std::vector<double>& w, int type, double bw, double corr, bool trunc, size_t i, size_t start, size_t end, T got) {
  T sum = 0;
  double ws = 0, aws = 0, mag = 0;
  for (size_t j = start; j < end; ++j) {
    double c = kern(type, (f[i] - f[j]) * corr / bw, trunc) * w[j];
    sum += data[j] * c;
    ws += c;
    aws += std::abs(c);
    mag += std::abs(data[j] * c);
  }
  if (ws == 0) return isnan_(got);
  if (isnan_(got)) return false;
  return std::abs(got - sum / ws) <= 1e-9 * (1 + mag / ws);
}
template <class T>
static void run(const char* name, uint64_t seed, const std::vector<double>& f, const std::vector<double>& w, int type, double bw, double ref, double se, bool trunc, double factor) {
  vf::Case k(name, [&] { return std::to_string(seed) + " " + vs(f) + " " + vs(w) + " " + std::to_string(type) + " " + vf::str(bw) + " " + vf::str(ref) + " " + vf::str(se) + " " + std::to_string(trunc) + " " + vf::str(factor); });
  vf::Rng r(seed);
  typedef KernelSmoother<T, double> S;
  S s(f, typename S::KernelType(type), bw, ref, se, trunc);
  const size_t n = f.size();
  const size_t init = std::min<size_t>(std::lower_bound(f.begin(), f.end(), f[0] + bw * 0.5) - f.begin() + 1, n);
  for (int round = 0; round < 2; ++round) {  // the smoother is used again for the next series
    std::vector<T> data(n), d;
    for (T& x : data) x = value<T>(r);
    d = data;
    s.Smooth(d.data(), w.data(), factor);
    for (size_t i = 0; i < n; ++i) {
      const double lbw = ref == 0 ? bw : bw * f[i] / ref;
      const double corr = std::pow(lbw / bw, se) * factor;
      bool ok = false;
      if (!trunc) {
        ok = mean(f, data, w, type, bw, corr, trunc, i, 0, n, d[i]);
      } else {
        // all samples within half the bandwidth, and one more on each side
        size_t L = 0, R = 0;
        while (f[L] < f[i] - lbw * 0.5) ++L;
        while (R < n && f[R] < f[i] + lbw * 0.5) ++R;
        const size_t start = L > 0 ? L - 1 : 0, far = std::max(R, init);
        for (size_t e = R; e <= far && !ok; ++e) ok = mean(f, data, w, type, bw, corr, trunc, i, start, std::min(e + 1, n), d[i]);
      }
      if (!ok) vf::fail("output " + std::to_string(i) + " = " + vf::str(d[i]) + " is not the kernel-weighted mean of the samples" + (trunc ? " in its window" : ""));
    }
  }
}
static void t_smooth(const char* name, uint64_t seed, const std::vector<double>& f, const std::vector<double>& w, int type, double bw, double ref, double se, bool trunc, double factor) {
  if (name[6] == 'r') run<double>("smoothr", seed, f, w, type, bw, ref, se, trunc, factor);
  else run<C>("smoothc", seed, f, w, type, bw, ref, se, trunc, factor);
}
void vf::search(Rng& r, double secs, bool thorough) {
  for (int t = 0; t < 4; ++t)
    for (int tr = 0; tr < 2; ++tr)
      for (double d : {-3., -2., -1.5, -1., -0.5, -0.25, 0., 0.25, 0.5, 1., 1.5, 2., 2.5, 4.}) t_kernel(t, 2, d, tr);
  for (Timer t(secs); t.left();) {
    t_kernel(r.below(4), r.real(0.1, 5), r.real(-6, 6), r.below(2));
    size_t n = 1 + r.below(r.chance(0.1) ? 30 : 9);
    std::vector<double> f(n), w(n);
    double x = r.chance(0.5) ? r.real(1, 10) : 120e6, step = x > 100 ? 1e5 : 1;
    const bool regular = r.chance(0.4), exact = r.chance(0.5);
    if (exact) x = std::floor(x);
    for (size_t i = 0; i < n; ++i) {
      f[i] = x;
      x += regular ? step : exact ? step * (1 + r.below(4)) : step * r.real(0.1, 4);
      w[i] = r.chance(0.25) ? 0 : exact ? double(1 + r.below(4)) : r.real(0, 2);
    }
    double bw = exact ? step * (1 + r.below(7)) : step * r.real(0.2, 12);
    double ref = r.chance(0.5) ? 0 : r.real(0.6, 1.5) * f[r.below(n)];
    if (ref != 0 && bw > 1.5 * ref) ref = 0;  // the lower end of the window must not decrease with frequency
    double se = r.pick(std::vector<double>{-1, 0, 1, 0.5, -2});
    t_smooth(r.below(2) ? "smoothr" : "smoothc", r.next() >> 16, f, w, r.below(4), bw, ref, se, r.below(2), r.chance(0.5) ? 1 : r.real(0.3, 3));
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  size_t p = 0;
  auto num = [&] { return p < a.size() ? std::stod(a[p++]) : 0.0; };
  auto vec = [&] { std::vector<double> v(std::min(1e6, std::max(0.0, num()))); for (double& x : v) x = num(); return v; };
  if (t == "kernel") {
    int ty = num(); double bw = num(), d = num(); bool tr = num();
    if (ty >= 0 && ty < 4 && bw > 0) t_kernel(ty, bw, d, tr);
  } else if (t == "smoothr" || t == "smoothc") {
    uint64_t seed = num();
    auto f = vec(), w = vec();
    int ty = num();
    double bw = num(), ref = num(), se = num();
    bool tr = num();
    double fac = num();
    if (f.empty() || f.size() != w.size() || !(bw > 0) || ref < 0 || fac <= 0 || ty < 0 || ty > 3 || !std::is_sorted(f.begin(), f.end()) || f[0] <= 0) return;
    t_smooth(t.c_str(), seed, f, w, ty, bw, ref, se, tr, fac);
  }
}
