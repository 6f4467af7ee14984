#include "vf.h"
#include "common/baseline_indices.h"
using namespace dp3::common;
typedef unsigned long long U;
static std::string u(U x) { return std::to_string(x); }
static U tri(U n) { return n * (n + 1) / 2; }
static U spec(U p, U q, U n, int o) { return o == 1 ? p * n + q - tri(p) : tri(q) + p; }
static BaselineOrder ord(int o) { return o == 1 ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor; }
static void t_nbl(U n) {
  vf::Case k("nbl", [&] { return u(n); });
  vf::equal(ComputeNBaselines(n), tri(n), "number of baselines");
}
static void t_index(U a, U b, U n, int o) {
  vf::Case k("index", [&] { return u(a) + " " + u(b) + " " + u(n) + " " + std::to_string(o); });
  vf::equal(ComputeBaselineIndex(a, b, n, ord(o)), spec(std::min(a, b), std::max(a, b), n, o), "baseline index");
}
static void t_bl(U i, U n, int o) {
  vf::Case k("baseline", [&] { return u(i) + " " + u(n) + " " + std::to_string(o); });
  auto r = ComputeBaseline(i, n, ord(o));
  vf::check(r.first <= r.second && r.second < n, "not an ordered antenna pair: " + u(r.first) + "," + u(r.second));
  vf::equal(spec(r.first, r.second, n, o), i, "index of the returned baseline");
}
static void t_list(U a, U n, int o) {
  vf::Case k("list", [&] { return u(a) + " " + u(n) + " " + std::to_string(o); });
  auto r = ComputeBaselineList(a, n, ord(o));
  vf::equal(r.size(), n, "entries");
  for (U k = 0; k < n; ++k) vf::equal(r[k], spec(std::min(a, k), std::max(a, k), n, o), "entry " + u(k));
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  for (U n = 0; n <= 48; ++n) {
    t_nbl(n);
    for (int o = 0; o < 2; ++o) {
      for (U a = 0; a < n; ++a) { t_list(a, n, o); for (U b = 0; b < n; ++b) t_index(a, b, n, o); }
      for (U i = 0; i < tri(n); ++i) t_bl(i, n, o);
    }
  }
  for (U n : {100, 255, 256, 257, 576, 1023, 1024, 1025, 4097})
    for (int o = 0; o < 2; ++o) t_list(r.below(n), n, o);
  // every row boundary of a large array
  const U N = thorough ? 1 << 21 : 1 << 18;
  for (U q = 1; q < N; ++q) {
    for (int d = -1; d <= 1; ++d) t_bl(tri(q) + d, N, 0);
    U s = spec(q, q, N, 1);
    for (int d = -1; d <= 1; ++d) if (s + d < tri(N)) t_bl(s + d, N, 1);
  }
  while (t.left()) {
    for (int j = 0; j < 1000; ++j) {
      U n = 1 + r.below(U(1) << r.range(1, 24));
      int o = r.below(2);
      U a = r.below(n), b = r.below(n);
      t_nbl(n); t_index(a, b, n, o); t_bl(r.below(tri(n)), n, o); t_bl(tri(n) - 1, n, o); t_bl(0, n, o);
    }
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  auto g = [&](int i) { return std::stoull(a[i]); };
  if (t == "nbl") t_nbl(g(0));
  else if (t == "index") t_index(g(0), g(1), g(2), g(3));
  else if (t == "baseline") t_bl(g(0), g(1), g(2));
  else if (t == "list" && g(1) < 5000000) t_list(g(0), g(1), g(2));
}
