#include "vf.h"
#include <algorithm>
#include "base/Apply.cc"
using namespace dp3::base;
typedef std::complex<double> C;
typedef std::complex<long double> L;
struct In {
  size_t nbl, nch, nst, cs, d0, d1, d2;
  std::vector<Baseline> bl;
  std::vector<double> co;
  std::vector<C> data;
};
static In make(vf::Rng& r, size_t nbl, size_t nch, size_t nst, bool strided) {
  In k{nbl, nch, nst, 8, 1, 4, 4 * nch, {}, {}, {}};
  if (strided) {
    k.cs = 8 + r.below(5);
    k.d0 = 1 + r.below(3);
    k.d1 = 4 * k.d0 + r.below(4);
    k.d2 = nch * k.d1 + r.below(4);
  }
  for (size_t i = 0; i < nbl; ++i) {
    size_t p = r.below(nst), q = r.chance(0.2) ? p : r.below(nst);
    k.bl.emplace_back(p, q);
  }
  auto v = [&] { return r.chance(0.05) ? 0.0 : r.real(-3, 3); };
  for (size_t i = 0; i < nst * k.cs; ++i) k.co.push_back(v());
  for (size_t i = 0; i < nbl * k.d2 + 8; ++i) k.data.emplace_back(v(), v());
  return k;
}
static void t_apply(uint64_t seed, size_t nbl, size_t nch, size_t nst, int strided) {
  vf::Case k("random", [&] { return std::to_string(seed) + " " + std::to_string(nbl) + " " + std::to_string(nch) + " " + std::to_string(nst) + " " + std::to_string(strided); });
  vf::Rng r(seed);
  In in = make(r, nbl, nch, nst, strided);
  std::vector<C> out = in.data;
  const size_t cs[2] = {1, in.cs}, ds[3] = {in.d0, in.d1, in.d2};
  apply(nbl, nch, const_cursor<Baseline>(in.bl.data()), const_cursor<double>(in.co.data(), 2, cs), cursor<C>(out.data(), 3, ds));
  std::vector<L> want(in.data.begin(), in.data.end());
  std::vector<char> touched(out.size(), 0);
  for (size_t b = 0; b < nbl; ++b) {
    size_t p = in.bl[b].first, q = in.bl[b].second;
    if (p == q) continue;
    auto J = [&](size_t s, int i, int j) { return L(in.co[s * in.cs + 4 * i + 2 * j], in.co[s * in.cs + 4 * i + 2 * j + 1]); };
    for (size_t c = 0; c < nch; ++c)
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
          L s = 0;
          for (int x = 0; x < 2; ++x)
            for (int y = 0; y < 2; ++y) s += J(p, i, x) * L(in.data[b * in.d2 + c * in.d1 + (2 * x + y) * in.d0]) * std::conj(J(q, j, y));
          want[b * in.d2 + c * in.d1 + (2 * i + j) * in.d0] = s;
          touched[b * in.d2 + c * in.d1 + (2 * i + j) * in.d0] = 1;
        }
  }
  for (size_t i = 0; i < out.size(); ++i) {
    if (!touched[i]) vf::check(out[i] == in.data[i], "sample " + std::to_string(i) + " must not change");
    else vf::check(vf::close(out[i].real(), want[i].real(), 1e-11) && vf::close(out[i].imag(), want[i].imag(), 1e-11),
                   "sample " + std::to_string(i) + ": got " + vf::str(out[i]) + ", want " + vf::str(C(want[i])));
  }
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 50; ++j)
      t_apply(r.next() >> 8, r.chance(0.02) ? 200 : r.below(9), r.chance(0.02) ? 300 : r.below(8), r.chance(0.05) ? 100 : 1 + r.below(6), r.below(2));
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  if (t == "random") t_apply(std::stoull(a[0]), std::stoull(a[1]), std::stoull(a[2]), std::stoull(a[3]), std::stoi(a[4]));
}
