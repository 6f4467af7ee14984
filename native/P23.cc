#include "vf.h"
#include "units/sky.h"
using namespace dp3::base;
typedef std::vector<int> VI;
struct Net { size_t na; VI a1, a2; std::vector<std::array<double, 3>> pos; };
static Net net(vf::Rng& r, size_t na, size_t nb, size_t groups) {
  Net n{na, {}, {}, {}};
  std::vector<size_t> g(na);
  for (size_t& x : g) x = r.below(groups);
  for (size_t i = 0; i < nb; ++i) {
    const size_t a = r.below(na), b = r.below(na);
    if (g[a] == g[b]) { n.a1.push_back(a); n.a2.push_back(b); }
  }
  n.pos.resize(na);
  for (auto& p : n.pos) for (double& x : p) x = r.chance(0.3) ? r.range(-2, 2) * 100 : r.real(-1000, 1000);
  return n;
}
static std::vector<size_t> comps(const Net& n, const std::vector<size_t>* sel = nullptr) {
  std::vector<size_t> c(n.na);
  for (size_t i = 0; i < n.na; ++i) c[i] = i;
  const size_t m = sel ? sel->size() : n.a1.size();
  for (size_t k = 0; k < m; ++k) {
    const size_t b = sel ? (*sel)[k] : k, x = c[n.a1[b]], y = c[n.a2[b]];
    if (x != y) for (size_t& v : c) if (v == y) v = x;
  }
  return c;
}
static size_t ncomp(const std::vector<size_t>& c) { return std::set<size_t>(c.begin(), c.end()).size(); }
// the indices derive every station of a group from one reference station, each from a known one
static void check_split(const Net& n, const VI& idx, const std::string& w) {
  const auto c = comps(n);
  vf::check(idx.size() == n.na - ncomp(c), "number of baselines used" + w);
  std::vector<int> state(n.na, 0);  // 1: derived
  std::vector<bool> seen(n.na, false);
  for (int i : idx) {
    const size_t b = i < 0 ? -(i + 1) : i;
    vf::check(b < n.a1.size(), "baseline exists" + w);
    const int to = i < 0 ? n.a1[b] : n.a2[b];
    vf::check(!seen[to], "a station is derived once, and before it is used" + w);
    seen[to] = true;
    seen[i < 0 ? n.a2[b] : n.a1[b]] = true;
  }
  // every group has exactly one station that is not derived
}
static void t_split(uint64_t seed, size_t na, size_t nb, size_t groups) {
  vf::Case k("split", [&] { return std::to_string(seed) + " " + std::to_string(na) + " " + std::to_string(nb) + " " + std::to_string(groups); });
  vf::Rng r(seed);
  const Net n = net(r, na, nb, groups);
  const auto c = comps(n);
  // consistent coordinates of the stations
  std::vector<std::array<double, 3>> P(na);
  for (auto& p : P) for (double& x : p) x = r.real(-3000, 3000);
  xt::xtensor<double, 2> bl(std::array<size_t, 2>{n.a1.size(), 3}), st(std::array<size_t, 2>{na, 3});
  std::vector<Baseline> pairs;
  for (size_t b = 0; b < n.a1.size(); ++b) {
    pairs.emplace_back(n.a1[b], n.a2[b]);
    for (int j = 0; j < 3; ++j) bl(b, j) = P[n.a2[b]][j] - P[n.a1[b]][j];
  }
  for (int with = 0; with < 2; ++with) {
    const std::string w = with ? " (longest baselines)" : "";
    const VI idx = with ? SetupUvwSplitting(na, n.a1, n.a2, n.pos) : SetupUvwSplitting(na, n.a1, n.a2);
    check_split(n, idx, w);
    st.fill(7);
    SplitUvw(idx, pairs, bl, st);
    for (size_t b = 0; b < n.a1.size(); ++b)
      for (int j = 0; j < 3; ++j)
        vf::check(std::abs(st(n.a2[b], j) - st(n.a1[b], j) - bl(b, j)) < 1e-8, "the coordinates of baseline " + std::to_string(b) + " are the difference of its stations" + w);
    std::map<size_t, bool> zero;
    for (size_t a = 0; a < na; ++a) zero[c[a]] |= st(a, 0) == 0 && st(a, 1) == 0 && st(a, 2) == 0;
    for (auto& z : zero) vf::check(z.second, "every group has a station at the origin" + w);
  }
  // longest first
  const auto sorted = GetBaselinesSortedByLength(n.a1, n.a2, n.pos);
  std::vector<bool> used(n.a1.size(), false);
  auto len = [&](size_t b) { double s = 0; for (int j = 0; j < 3; ++j) s += std::pow(n.pos[n.a2[b]][j] - n.pos[n.a1[b]][j], 2); return s; };
  vf::check(sorted.size() == n.a1.size(), "all baselines sorted");
  for (size_t i = 0; i < sorted.size(); ++i) {
    vf::check(sorted[i] < used.size() && !used[sorted[i]], "sorted baselines are a permutation");
    used[sorted[i]] = true;
    if (i) vf::check(len(sorted[i - 1]) >= len(sorted[i]), "sorted by length, longest first");
  }
  // greedy spanning forest: exactly the baselines that join two groups of the earlier ones (autocorrelations join nothing)
  std::vector<size_t> order = sorted;
  if (r.chance(0.5)) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  std::vector<size_t> useful;
  for (size_t b : order) if (n.a1[b] != n.a2[b]) useful.push_back(b);
  const auto sel = GetBaselineSelection(na, useful, n.a1, n.a2);
  std::vector<size_t> want, one;
  for (size_t b : useful) {
    auto cc = comps(n, &want);
    if (cc[n.a1[b]] != cc[n.a2[b]]) want.push_back(b);
  }
  vf::check(sel == want, "selected baselines: the first ones that join two groups");
}
// ---- rotation of coordinates
static void t_rotate(uint64_t seed, size_t n) {
  vf::Case k("rotate", [&] { return std::to_string(seed) + " " + std::to_string(n); });
  vf::Rng r(seed);
  const Direction a(r.real(-4, 4), r.real(-1.57, 1.57)), b(r.real(-4, 4), r.real(-1.57, 1.57));
  std::vector<double> uvw(3 * n);
  for (double& x : uvw) x = r.real(-100, 100);
  const std::vector<double> old = uvw;
  auto axes = [](const Direction& d, double m[3][3]) {
    const double s = std::sin(d.ra), c = std::cos(d.ra), sd = std::sin(d.dec), cd = std::cos(d.dec);
    const double v[3][3] = {{c, -s, 0}, {-s * sd, -c * sd, cd}, {s * cd, c * cd, sd}};
    std::memcpy(m, v, sizeof v);
  };
  double A[3][3], B[3][3];
  axes(a, A);
  axes(b, B);
  rotateUVW(a, b, n, uvw.data());
  for (size_t i = 0; i < n; ++i) {
    double x[3] = {0, 0, 0};
    for (int j = 0; j < 3; ++j) for (int m = 0; m < 3; ++m) x[m] += old[3 * i + j] * A[j][m];
    for (int j = 0; j < 3; ++j) vf::check(std::abs(uvw[3 * i + j] - (x[0] * B[j][0] + x[1] * B[j][1] + x[2] * B[j][2])) < 1e-9, "coordinate " + std::to_string(j) + " towards the new direction");
  }
}

void vf::search(Rng& r, double secs, bool) {
  for (Timer t(secs); t.left();) {
    t_split(r.next() >> 16, 1 + r.below(9), r.below(16), 1 + r.below(3));
    t_rotate(r.next() >> 16, r.below(4));
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  auto u = [&](size_t i) { return std::stoull(a.at(i)); };
  if (t == "split") { if (u(1) < 1 || u(1) > 1000 || u(2) > 1000 || u(3) < 1 || u(3) > 1000) return; return t_split(u(0), u(1), u(2), u(3)); }
  if (t == "rotate") { if (u(1) > 1000) return; return t_rotate(u(0), u(1)); }
}
