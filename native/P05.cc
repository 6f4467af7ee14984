#include "vf.h"
#include <algorithm>
#include "base/SubtractMixed.cc"
using namespace dp3::base;
typedef std::complex<double> C;
typedef std::complex<float> F;
static void t_sub(uint64_t seed, size_t nbl, size_t nch, size_t nst, int strided) {
  vf::Case k("random", [&] { return std::to_string(seed) + " " + std::to_string(nbl) + " " + std::to_string(nch) + " " + std::to_string(nst) + " " + std::to_string(strided); });
  vf::Rng r(seed);
  size_t s[3][3];
  for (auto& x : s) {
    x[0] = strided ? 1 + r.below(3) : 1;
    x[1] = 4 * x[0] + (strided ? r.below(4) : 0);
    x[2] = nch * x[1] + (strided ? r.below(4) : 0);
  }
  std::vector<Baseline> bl;
  for (size_t i = 0; i < nbl; ++i) {
    size_t p = r.below(nst), q = r.chance(0.2) ? p : r.below(nst);
    bl.emplace_back(p, q);
  }
  auto v = [&] { return r.chance(0.05) ? 0.0 : r.real(-3, 3); };
  std::vector<F> d0(nbl * s[0][2] + 8);
  std::vector<C> m(nbl * s[1][2] + 8), w(nbl * s[2][2] + 8);
  for (auto& x : d0) x = F(v(), v());
  for (auto& x : m) x = C(v(), v());
  for (auto& x : w) x = C(v(), v());
  const bool nan = r.chance(0.3);
  if (nan) for (auto& x : d0) if (r.chance(0.1)) x = F(NAN, NAN);
  std::vector<F> d = d0;
  float before = 7, after = -3;
  subtract(nbl, nch, const_cursor<Baseline>(bl.data()), cursor<F>(d.data(), 3, s[0]), const_cursor<C>(m.data(), 3, s[1]), const_cursor<C>(w.data(), 3, s[2]), before, after);
  std::vector<char> touched(d.size(), 0);
  double vb = 0, va = 0;
  for (size_t b = 0; b < nbl; ++b) {
    if (bl[b].first == bl[b].second) continue;
    for (size_t c = 0; c < nch; ++c)
      for (int i = 0; i < 4; ++i) {
        size_t id = b * s[0][2] + c * s[0][1] + i * s[0][0];
        C e = C(d0[id]) - w[b * s[2][2] + c * s[2][1] + i * s[2][0]] * m[b * s[1][2] + c * s[1][1] + i * s[1][0]];
        touched[id] = 1;
        vf::check(vf::close(d[id].real(), e.real(), 3e-6) && vf::close(d[id].imag(), e.imag(), 3e-6),
                  "sample " + std::to_string(id) + ": got " + vf::str(d[id]) + ", want " + vf::str(e));
        if (i == 0 || i == 3) {
          if (!std::isnan(std::abs(d0[id]))) vb += std::norm(C(d0[id]));
          if (!std::isnan(std::abs(e))) va += std::norm(e);
        }
      }
  }
  for (size_t i = 0; i < d.size(); ++i)
    if (!touched[i]) vf::check(!memcmp(&d[i], &d0[i], sizeof(F)), "sample " + std::to_string(i) + " must not change");
  vf::check(vf::close(before, vb, 1e-4), "power before: got " + vf::str(before) + ", want " + vf::str(vb));
  vf::check(vf::close(after, va, 1e-4), "power after: got " + vf::str(after) + ", want " + vf::str(va));
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 50; ++j)
      t_sub(r.next() >> 8, r.chance(0.02) ? 60 : r.below(9), r.chance(0.02) ? 50 : r.below(8), r.chance(0.05) ? 100 : 1 + r.below(6), r.below(2));
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  if (t == "random") t_sub(std::stoull(a[0]), std::stoull(a[1]), std::stoull(a[2]), std::stoull(a[3]), std::stoi(a[4]));
}
