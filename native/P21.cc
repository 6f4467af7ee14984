#include <algorithm>
#include "vf.h"
#include "cuda_runtime.h"
// the launch: every thread of the grid, one after another in a random order
static unsigned B, T, BD;
static vf::Rng* order;
static std::map<float*, double> added;
extern "C" unsigned vf_block() { return B; }
extern "C" unsigned vf_thread() { return T; }
extern "C" unsigned vf_blockdim() { return BD; }
extern "C" double vf_nan() { return std::nan(""); }
// additions appear when the launch has ended: threads neither see them nor may touch the memory otherwise
extern "C" float vf_atomic_add(float* p, float v) { volatile float probe = *p; (void)probe; added[p] += v; return *p; }
static std::vector<std::pair<float*, size_t>> guarded;
static std::vector<float> before;
template <class K>
struct Launch {
  K k;
  size_t grid, block;
  template <class... A>
  void operator()(A... a) {
    before.clear();
    added.clear();
    for (auto& g : guarded) before.insert(before.end(), g.first, g.first + g.second);
    vf::check(block >= 1 && block <= 1024 && grid >= 1, "impossible launch");
    std::vector<size_t> t(grid * block);
    for (size_t i = 0; i < t.size(); ++i) t[i] = i;
    for (size_t i = t.size(); i > 1; --i) std::swap(t[i - 1], t[order->below(i)]);
    BD = block;
    for (size_t i : t) { B = i / block; T = i % block; k(a...); }
    size_t i = 0;
    for (auto& g : guarded)
      for (size_t j = 0; j < g.second; ++j, ++i) vf::check(g.first[j] == before[i], "shared sums written without an atomic addition");
    for (auto& x : added) *x.first += x.second;
  }
};
template <class K>
static Launch<K> launch(K k, size_t g, size_t b) { return {k, g, b}; }
#define VF_LAUNCH(kernel, grid, block, mem, stream) launch(kernel, grid, block)
#include "IterativeDiagonal.inc"
#include <array>
typedef std::complex<float> CF;
typedef std::complex<double> CD;
typedef std::array<CD, 4> M;
static cu::DeviceMemory dm(const void* p) { return cu::DeviceMemory((void*)p); }
template <class V>
static V rnd(vf::Rng& r) { return V(r.chance(0.1) ? 0 : r.range(-8, 8) / 4.0, r.chance(0.1) ? 0 : r.range(-8, 8) / 4.0); }
template <class V>
static std::vector<V> rndv(vf::Rng& r, size_t n) { std::vector<V> v(n); for (V& x : v) x = rnd<V>(r); return v; }
static bool near(CD a, CD b, double e = 1e-4) { return std::abs(a - b) <= e * (1 + std::abs(b)); }

static void t_solve(uint64_t seed, size_t na, size_t nv, size_t nd) {
  vf::Case k("solve", [&] { return std::to_string(seed) + " " + std::to_string(na) + " " + std::to_string(nv) + " " + std::to_string(nd); });
  vf::Rng r(seed);
  order = &r;
  // nd directions with their own number of solutions each
  std::vector<size_t> nsd(nd);
  size_t ns = 0;
  std::vector<unsigned> pairs(2 * nv), map(nd * nv);
  for (size_t v = 0; v < nv; ++v) {
    pairs[2 * v] = r.below(na);
    do pairs[2 * v + 1] = r.below(na); while (pairs[2 * v + 1] == pairs[2 * v]);
  }
  for (size_t d = 0; d < nd; ++d) {
    nsd[d] = std::min<size_t>(1 + r.below(3), nv);
    for (size_t v = 0; v < nv; ++v) map[d * nv + v] = ns + v * nsd[d] / nv;
    ns += nsd[d];
  }
  std::vector<CD> sol = rndv<CD>(r, na * ns * 2);
  std::vector<CF> model = rndv<CF>(r, nd * nv * 4), res = rndv<CF>(r, nv * 4);
  auto contribution = [&](size_t d, size_t v) {
    const CD* a = &sol[(pairs[2 * v] * ns + map[d * nv + v]) * 2];
    const CD* b = &sol[(pairs[2 * v + 1] * ns + map[d * nv + v]) * 2];
    M m;
    for (size_t i = 0; i < 4; ++i) m[i] = a[i / 2] * CD(model[(d * nv + v) * 4 + i]) * std::conj(b[i % 2]);
    return m;
  };
  auto d_pairs = dm(pairs.data()), d_map = dm(map.data()), d_sol = dm(sol.data()), d_model = dm(model.data());
  const std::vector<unsigned> pairs0 = pairs, map0 = map;
  const std::vector<CD> sol0 = sol;
  const std::vector<CF> model0 = model;
  // subtract all directions
  std::vector<CF> sub = res;
  auto d_sub = dm(sub.data());
  LaunchSubtractKernel(0, nd, nv, ns, d_pairs, d_map, d_sol, d_model, d_sub);
  for (size_t v = 0; v < nv; ++v)
    for (size_t i = 0; i < 4; ++i) {
      CD want = res[4 * v + i];
      for (size_t d = 0; d < nd; ++d) want -= contribution(d, v)[i];
      vf::check(near(sub[4 * v + i], want), "residual " + std::to_string(v) + " is not the data minus the corrupted models");
    }
  // one direction
  const size_t d = r.below(nd), s0 = map[d * nv];
  std::vector<CF> num = rndv<CF>(r, na * nsd[d] * 2), temp(nv * 4);
  std::vector<float> den(na * nsd[d] * 2);
  for (float& x : den) x = r.range(0, 4) / 4.0;
  std::vector<CD> wnum(num.begin(), num.end());
  std::vector<double> wden(den.begin(), den.end());
  if (r.chance(0.3)) for (size_t i = 0; i < den.size(); ++i) den[i] = wden[i] = 0, num[i] = wnum[i] = 0;
  guarded = {{(float*)num.data(), num.size() * 2}, {den.data(), den.size()}};
  const std::vector<CF> in = sub;
  auto d_temp = dm(temp.data()), d_num = dm(num.data()), d_den = dm(den.data());
  LaunchSolveDirectionKernel(0, nv, nsd[d], ns, d, d_pairs, d_map, d_sol, d_model, d_sub, d_temp, d_num, d_den);
  guarded.clear();
  vf::check(sub == in, "the residual of all directions must stay");
  for (size_t v = 0; v < nv; ++v) {
    M R, c = contribution(d, v);
    for (size_t i = 0; i < 4; ++i) {
      R[i] = CD(in[4 * v + i]) + c[i];
      vf::check(near(temp[4 * v + i], R[i]), "residual " + std::to_string(v) + " without this direction");
    }
    const CF* m = &model[(d * nv + v) * 4];
    for (int side = 0; side < 2; ++side) {
      const size_t me = pairs[2 * v + side], other = pairs[2 * v + 1 - side], s = map[d * nv + v];
      const CD* g = &sol[(other * ns + s) * 2];
      // side 0: sum_b D g M^H; side 1: the same for the transposed baseline
      M cm, data;
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j) {
          cm[2 * i + j] = g[i] * (side ? CD(m[2 * i + j]) : std::conj(CD(m[2 * j + i])));
          data[2 * i + j] = side ? std::conj(R[2 * j + i]) : R[2 * i + j];
        }
      const size_t at = (me * nsd[d] + s - s0) * 2;
      for (int p = 0; p < 2; ++p) {
        wnum[at + p] += data[2 * p] * cm[p] + data[2 * p + 1] * cm[2 + p];
        wden[at + p] += std::norm(cm[p]) + std::norm(cm[2 + p]);
      }
    }
  }
  for (size_t i = 0; i < num.size(); ++i) {
    vf::check(near(num[i], wnum[i], 1e-3), "numerator " + std::to_string(i));
    vf::check(near(den[i], wden[i], 1e-3), "denominator " + std::to_string(i));
  }
  // next solutions of this direction only
  if (r.chance(0.2)) den[r.below(den.size())] = 0;
  std::vector<CD> next = rndv<CD>(r, na * ns * 2);
  const std::vector<CD> next0 = next;
  auto d_next = dm(next.data());
  LaunchSolveNextSolutionKernel(0, na, nv, nsd[d], ns, d, d_pairs, d_map, d_next, d_num, d_den);
  for (size_t a = 0; a < na; ++a)
    for (size_t s = 0; s < ns; ++s)
      for (int p = 0; p < 2; ++p) {
        const size_t i = (a * ns + s) * 2 + p;
        if (s < s0 || s >= s0 + nsd[d]) { vf::check(next[i] == next0[i], "solutions of other directions must stay"); continue; }
        const size_t j = (a * nsd[d] + s - s0) * 2 + p;
        if (den[j] == 0) vf::check(std::isnan(next[i].real()) && std::isnan(next[i].imag()), "no data: the solution must be NaN");
        else vf::check(near(next[i], CD(num[j]) / double(den[j])), "next solution " + std::to_string(i));
      }
  vf::check(pairs == pairs0 && map == map0 && sol == sol0 && model == model0, "inputs written");
}

static void t_step(uint64_t seed, size_t n, bool phase, double step) {
  vf::Case k("step", [&] { return std::to_string(seed) + " " + std::to_string(n) + " " + std::to_string(phase) + " " + vf::str(step); });
  vf::Rng r(seed);
  order = &r;
  std::vector<CD> sol = rndv<CD>(r, n), next = rndv<CD>(r, n);
  if (phase)
    for (auto v : {&sol, &next}) for (CD& x : *v) x = std::polar(r.real(0.5, 2), r.real(-3.14159, 3.14159));
  const std::vector<CD> sol0 = sol, next0 = next;
  auto a = dm(sol.data()), b = dm(next.data());
  LaunchStepKernel(0, n, a, b, phase, step);
  vf::check(sol == sol0, "inputs written");
  for (size_t i = 0; i < n; ++i) {
    CD want = sol0[i] * (1 - step) + next0[i] * step;
    if (phase) {
      double d = std::remainder(std::arg(next0[i]) - std::arg(sol0[i]), 2 * M_PI);
      if (std::abs(std::abs(d) - M_PI) < 1e-3) continue;
      want = std::polar(1.0, std::arg(sol0[i]) + step * d);
    }
    vf::check(near(next[i], want, 2e-6), "step of solution " + std::to_string(i));
  }
}

void vf::search(Rng& r, double secs, bool) {
  const size_t odd[] = {1, 2, 127, 128, 129, 255, 256, 257, 300};
  for (Timer t(secs); t.left();) {
    t_solve(r.next() >> 16, 2 + r.below(4), 1 + r.below(12), 1 + r.below(3));
    if (r.chance(0.05)) t_solve(r.next() >> 16, r.chance(0.3) ? 2 + odd[r.below(9)] : 2 + r.below(6), odd[r.below(9)], 1 + r.below(3));
    t_step(r.next() >> 16, r.chance(0.1) ? odd[r.below(9)] : 1 + r.below(6), r.chance(0.6), r.pick(std::vector<double>{0, 0.2, 0.5, 1}));
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  auto u = [&](size_t i) { return i < a.size() ? std::stoull(a[i]) : 0ull; };
  if (t == "solve") {
    if (u(1) > 1 && u(2) > 0 && u(3) > 0 && u(1) < 5000 && u(2) < 5000 && u(3) < 100) t_solve(u(0), u(1), u(2), u(3));
  } else if (t == "step" && a.size() == 4 && u(1) < 100000) t_step(u(0), u(1), u(2), std::stod(a[3]));
}
