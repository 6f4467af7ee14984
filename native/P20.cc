#include "vf.h"
#include <algorithm>
#include <cassert>
#include "common/PhaseLineFitter.h"
#include "ddecal/constraints/PieceWisePhaseFitter.h"
using namespace dp3::common::phase_fitting;
typedef dp3::ddecal::PieceWisePhaseFitter PW;
typedef std::vector<double> V;
static const double T = 2 * M_PI;
static std::string vs(const V& v) { std::string s = std::to_string(v.size()); for (double x : v) s += " " + vf::str(x); return s; }
static std::string ds(const std::vector<FitSample>& d) { std::string s = std::to_string(d.size()); for (auto& x : d) s += " " + vf::str(x.x) + " " + vf::str(x.y) + " " + vf::str(x.weight); return s; }
// distance to the nearest whole number of turns
static double turns(double y) { return std::abs(y - T * std::round(y / T)); }

// ---- line through the origin ----
static bool edge(const std::vector<FitSample>& d, double s) {  // a sample half a turn away from the model
  for (auto& x : d) if (M_PI - turns(x.y - s * x.x) < 1e-9 * (1 + std::abs(x.y) + std::abs(s * x.x))) return true;
  return false;
}
static double lsq(const std::vector<FitSample>& d, double s) {
  long double n = 0, e = 0;
  for (auto& x : d) {
    const double m = s * x.x, diff = (x.y - m) - T * std::round((x.y - m) / T);
    n += (long double)x.weight * x.x * (m + diff);
    e += (long double)x.weight * x.x * x.x;
  }
  return e == 0 ? 0 : double(n / e);
}
static double cost(const std::vector<FitSample>& d, double s) {
  double c = 0, w = 0;
  for (auto& x : d) { c += x.weight * turns(s * x.x - x.y); w += x.weight; }
  return w == 0 ? 0 : c / w;
}
static double mag(const std::vector<FitSample>& d, double s) {
  double m = 1, e = 0, a = 0;
  for (auto& x : d) { a += std::abs(x.weight * x.x) * (std::abs(s * x.x) + std::abs(x.y)); e += x.weight * x.x * x.x; m = std::max(m, std::abs(x.y)); }
  return e == 0 ? 1 : 1 + a / e;
}
static void t_unwrapfit(const std::vector<FitSample>& d, double s) {
  if (edge(d, s)) return;
  vf::Case k("unwrapfit", [&] { return ds(d) + " " + vf::str(s); });
  double got = UnwrapAndFit(d, s), want = lsq(d, s);
  vf::check(std::abs(got - want) <= 1e-9 * mag(d, s), "UnwrapAndFit gives " + vf::str(got) + ", want " + vf::str(want));
  double m = 1;
  for (auto& x : d) m = std::max(m, std::abs(x.y) + std::abs(s * x.x));
  vf::check(std::abs(SlopeModelCost(d, s) - cost(d, s)) <= 1e-9 * m, "SlopeModelCost gives " + vf::str(SlopeModelCost(d, s)) + ", want " + vf::str(cost(d, s)));
}
static void t_range(const std::vector<FitSample>& d, int limit) {
  vf::Case k("range", [&] { return ds(d) + " " + std::to_string(limit); });
  auto r = limit < 0 ? GetRange(d) : GetRange(d, limit);
  if (d.empty()) { vf::check(r.max_wraps == 0 && r.wrap_step == 0, "range of no data is not empty"); return; }
  double M = 0, md = INFINITY;
  for (auto& x : d) M = std::max(M, std::abs(x.x));
  for (size_t i = 1; i < d.size(); ++i) if (d[i].x > d[i - 1].x) md = std::min(md, d[i].x - d[i - 1].x);
  if (M > 0) vf::check(r.wrap_step > 0 && r.wrap_step * M <= M_PI * (1 + 1e-12), "the slopes searched are " + vf::str(r.wrap_step) + " apart, which changes the largest x (" + vf::str(M) + ") by more than half a turn");
  double need = std::isinf(md) ? 0 : M / md;
  if (d.size() < 20) need = std::min(need, 10.0 * (2 << d.size()));
  if (limit >= 0) need = std::min<double>(need, limit);
  vf::check(r.max_wraps >= 0 && r.max_wraps + 1e-6 * need + 1e-9 >= need, "max_wraps " + std::to_string(r.max_wraps) + " but " + vf::str(need) + " wraps can be resolved");
  if (limit >= 0) vf::check(r.max_wraps <= limit, "max_wraps " + std::to_string(r.max_wraps) + " over the limit");
}
static void t_fit(const std::vector<FitSample>& d, int wraps, double step) {
  for (int i = -wraps; i <= wraps; ++i) if (edge(d, i * step)) return;
  vf::Case k("fit", [&] { return ds(d) + " " + std::to_string(wraps) + " " + vf::str(step); });
  double got = FitSlope(d, SlopeFitRange{wraps, step}), best = INFINITY;
  std::vector<std::pair<double, double>> c;
  double m = 1;
  for (auto& x : d) m = std::max(m, std::abs(x.y) + (wraps + 1) * step * std::abs(x.x));
  for (int i = -wraps; i <= wraps; ++i) { double e = lsq(d, i * step); c.emplace_back(cost(d, e), e); best = std::min(best, c.back().first); }
  bool ok = false;
  for (auto& x : c) if (x.first <= best + 1e-9 * m) ok = ok || edge(d, x.second) || std::abs(lsq(d, x.second) - got) <= 1e-8 * mag(d, x.second);
  vf::check(ok, "FitSlope gives " + vf::str(got) + ", which is not the refined fit of a best candidate");
}
// noiseless data of a slope within the searched range
static void t_exact(const V& xs, double s, int flagged) {
  std::vector<FitSample> d;
  for (size_t i = 0; i < xs.size(); ++i) d.push_back({xs[i], int(i) == flagged ? 1e5 : std::fmod(s * xs[i], T), int(i) == flagged ? 0. : 1.});
  auto r = GetRange(d);
  vf::Case k("exact", [&] { return vs(xs) + " " + vf::str(s) + " " + std::to_string(flagged); });
  if (r.max_wraps > 5000 || !(std::abs(s) <= r.max_wraps * r.wrap_step)) return;
  double got = FitSlope(d), M = 0;
  for (auto& x : d) M = std::max(M, std::abs(x.x));
  for (auto& x : d) if (x.weight != 0) vf::check(turns(got * x.x - x.y) <= 1e-6 * (1 + std::abs(s) * M), "slope " + vf::str(got) + " fitted to noiseless data of slope " + vf::str(s) + " is off at x = " + vf::str(x.x));
}

// ---- piece-wise fits ----
static void t_unwrap(const V& v) {
  vf::Case k("unwrap", [&] { return vs(v); });
  V u = v;
  PW::Unwrap(u.begin(), u.end());
  for (size_t i = 0; i < v.size(); ++i) {
    vf::check(turns(u[i] - v[i]) <= 1e-9 * (1 + std::abs(v[i]) + std::abs(u[i])), "value " + std::to_string(i) + " is not moved by whole turns");
    if (i) vf::check(std::abs(u[i] - u[i - 1]) <= M_PI * (1 + 1e-12) + 1e-12 * std::abs(u[i]), "values " + std::to_string(i) + " and the one before are over half a turn apart");
  }
  if (!v.empty()) vf::check(u[0] == v[0], "the first value is moved");
}
static void t_median(const V& v, const V& w) {
  vf::Case k("median", [&] { return vs(v) + " " + vs(w); });
  std::vector<std::pair<double, double>> p;
  double tot = 0;
  for (size_t i = 0; i < v.size(); ++i) p.emplace_back(v[i], w[i]), tot += w[i];
  double m = PW::WeightedMedian(p), lo = 0, hi = 0;
  if (v.empty()) { vf::check(m == 0, "median of nothing is not 0"); return; }
  bool in = false;
  for (size_t i = 0; i < v.size(); ++i) { if (v[i] < m) lo += w[i]; if (v[i] > m) hi += w[i]; in = in || (v[i] == m); }
  const double e = 1e-9 * tot;
  vf::check(in && lo <= tot / 2 + e && hi <= tot / 2 + e, "weighted median " + vf::str(m) + " has weight " + vf::str(lo) + " below and " + vf::str(hi) + " above of " + vf::str(tot));
}
static double moved(double v, double r) { return v - r > M_PI ? v - T : v - r < -M_PI ? v + T : v; }
// least squares line through the values moved to r
static bool line(const V& nu, const V& d, const V& w, double r, double& mid, double& slope, double& x0) {
  long double s = 0, sx = 0, sy = 0;
  for (size_t i = 0; i < nu.size(); ++i) s += w[i], sx += (long double)w[i] * nu[i], sy += (long double)w[i] * moved(d[i], r);
  if (s == 0) { mid = slope = x0 = 0; return true; }
  long double mx = sx / s, my = sy / s, xx = 0, xy = 0;
  for (size_t i = 0; i < nu.size(); ++i) xx += w[i] * (nu[i] - mx) * (nu[i] - mx), xy += w[i] * (nu[i] - mx) * (moved(d[i], r) - my);
  if (xx == 0) return false;
  mid = my; slope = xy / xx; x0 = mx;
  return true;
}
// fit[] is the least squares line for the values moved to some reference
static bool fits(const V& nu, const V& d, const V& w, const V& fit, size_t lo, size_t hi, double tol) {
  V refs;
  for (double v : d) for (double e : {M_PI, -M_PI}) for (double h : {1e-9, -1e-9}) refs.push_back(v + e + h);
  for (double r : refs) {
    double m, b, x0;
    if (!line(nu, d, w, r, m, b, x0)) return true;  // a single frequency: no line is determined
    bool ok = true;
    for (size_t i = lo; i < hi && ok; ++i) ok = std::abs(fit[i] - (m + b * (nu[i] - x0))) <= tol;
    if (ok) return true;
  }
  return false;
}
static V sub(const V& v, size_t a, size_t n) { return V(v.begin() + a, v.begin() + a + n); }
static double tolerance(const V& nu, const V& d) {
  double m = 0, span = nu.back() - nu[0];
  for (double v : d) m = std::max(m, std::abs(v));
  double md = span;
  for (size_t i = 1; i < nu.size(); ++i) md = std::min(md, nu[i] - nu[i - 1]);
  double q = (std::abs(nu[0]) + span) / std::max(md, 1e-300);
  return 1e-11 * q * q * (10 + m);
}
// chunk of the window fits: [pos, pos + c) of the data
static void window(const V& nu, const V& d, const V& w, const V& fit, size_t pos, size_t c, size_t lo, size_t hi, const char* what) {
  if (lo >= hi) return;
  V f(c);
  for (size_t i = lo; i < hi; ++i) f[i - pos] = fit[i];
  double tw = 0;
  size_t nz = 0;
  for (size_t i = 0; i < c; ++i) nz += w[pos + i] != 0;
  if (nz == 1) return;
  vf::check(fits(sub(nu, pos, c), sub(d, pos, c), sub(w, pos, c), f, lo - pos, hi - pos, tolerance(nu, d)), std::string(what) + ": values " + std::to_string(lo) + ".." + std::to_string(hi) + " are not the least squares line of samples " + std::to_string(pos) + ".." + std::to_string(pos + c));
}
static void sliding(const V& nu, const V& d, const V& w, const V& fit, size_t from, size_t n, size_t chunk, const char* what) {
  const size_t c = std::min(chunk, n);
  if (c <= 1) { for (size_t i = from; i < from + n; ++i) vf::check(fit[i] == d[i], std::string(what) + ": value changed for a window of one"); return; }
  const size_t left = c / 2, right = n - c + c / 2;
  window(nu, d, w, fit, from, c, from, from + left, what);
  for (size_t i = left; i < right; ++i) window(nu, d, w, fit, from + i - left, c, from + i, from + i + 1, what);
  window(nu, d, w, fit, from + n - c, c, from + right, from + n, what);
}
static void t_pw(const V& nu, const V& d, const V& w, size_t chunk) {
  const size_t n = nu.size();
  vf::Case k("pw", [&] { return vs(nu) + " " + vs(d) + " " + vs(w) + " " + std::to_string(chunk); });
  PW p(chunk);
  vf::check(p.ChunkSize() == chunk, "ChunkSize");
  V ones(n, 1), f(n, 77), g(n, 77);
  for (int weighted = 0; weighted < 2; ++weighted) {
    const V& ww = weighted ? w : ones;
    const char* what = weighted ? "weighted PieceWiseFit" : "PieceWiseFit";
    if (weighted) p.PieceWiseFit(nu, d, w.data(), f); else p.PieceWiseFit(nu, d, f);
    const size_t c = std::min(chunk, n);
    vf::check(f.size() == n, "size of the fit");
    if (c <= 1) { for (size_t i = 0; i < n; ++i) vf::check(f[i] == d[i], std::string(what) + ": value changed for a chunk of one"); }
    else for (size_t s = 0; s < n; s += c) {
      // the last chunk ends at the last sample
      size_t pos = std::min(s, n - c), end = pos + c;
      if (s + c < n && s + 2 * c > n) end = std::min(end, n - c);
      window(nu, d, ww, f, pos, c, pos, end, what);
    }
    what = weighted ? "weighted SlidingFit" : "SlidingFit";
    if (weighted) p.SlidingFit(nu.data(), d.data(), w.data(), g.data(), n); else p.SlidingFit(nu.data(), d.data(), g.data(), n);
    sliding(nu, d, ww, g, 0, n, chunk, what);
  }
  // break point: the window with the largest weighted deviation
  size_t bp = p.BreakPoint(d.data(), w.data(), g.data(), n);
  const size_t ni = std::min(n, chunk);
  double best = 0, at = 0;
  for (size_t i = 0; i < n - ni; ++i) {
    double s = 0;
    for (size_t j = 0; j < ni; ++j) s += std::abs(d[i + j] - g[i + j]) * w[i + j];
    best = std::max(best, s);
    if (bp == i + chunk / 2) at = s;
  }
  vf::check(bp < std::max<size_t>(n, 1), "break point outside the data");
  vf::check(best == 0 || at >= best * (1 - 1e-12), "break point " + std::to_string(bp) + " is not the middle of the window with the largest deviation");
  V h(n, 77);
  size_t b = p.SlidingFitWithBreak(nu.data(), d.data(), w.data(), h.data(), n);
  if (ni <= 1) { vf::check(b == 0 && h == d, "fit with break changes values for a window of one"); return; }
  vf::check(b == bp, "fit with break breaks elsewhere");
  sliding(nu, d, w, h, 0, b, chunk, "left of the break");
  sliding(nu, d, w, h, b, n - b, chunk, "right of the break");
}
// weights only count relative to each other
static void t_scale(const V& nu, const V& d, const V& w, size_t chunk, double f) {
  const size_t n = nu.size();
  vf::Case k("scale", [&] { return vs(nu) + " " + vs(d) + " " + vs(w) + " " + std::to_string(chunk) + " " + vf::str(f); });
  PW p(chunk);
  V a(n), b(n), w2 = w;
  for (double& x : w2) x *= f;
  p.SlidingFit(nu.data(), d.data(), w.data(), a.data(), n);
  p.SlidingFit(nu.data(), d.data(), w2.data(), b.data(), n);
  for (size_t i = 0; i < n; ++i) vf::check(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])), "value " + std::to_string(i) + " depends on the scale of the weights: " + vf::str(a[i]) + " / " + vf::str(b[i]));
}
// noiseless line, wrapped: reproduced up to whole turns
static void t_line(const V& nu, const V& w, double a, double b, bool around0) {
  const size_t n = nu.size();
  size_t nz = 0;
  for (double x : w) nz += x > 0;
  if (n < 2 || nz < 2 || std::abs(b) * (nu.back() - nu[0]) > 0.9 * M_PI) return;
  vf::Case k("line", [&] { return vs(nu) + " " + vs(w) + " " + vf::str(a) + " " + vf::str(b) + " " + std::to_string(around0); });
  V d(n), f(n), g(n);
  for (size_t i = 0; i < n; ++i) { double y = a + b * (nu[i] - nu[0]); y -= T * std::floor(y / T); if (around0 && y > M_PI) y -= T; d[i] = y; }
  PW p(n);
  p.SlidingFit(nu.data(), d.data(), w.data(), f.data(), n);
  p.SlidingFit(nu.data(), d.data(), g.data(), n);
  for (size_t i = 0; i < n; ++i) {
    vf::check(turns(f[i] - d[i]) <= tolerance(nu, d), "weighted fit of a noiseless line is off at " + std::to_string(i));
    vf::check(turns(g[i] - d[i]) <= tolerance(nu, d), "fit of a noiseless line is off at " + std::to_string(i));
  }
}
static void t_chunk(double f0, double r, size_t n) {
  vf::Case k("chunk", [&] { return vf::str(f0) + " " + vf::str(r) + " " + std::to_string(n); });
  V f(n);
  for (size_t i = 0; i < n; ++i) f[i] = f0 * (1 + (r - 1) * i / std::max<size_t>(n - 1, 1));
  size_t c = PW::CalculateChunkSize(f);
  double oct = std::log2(f.back() / f[0]), want = n;
  if (oct > 0) want = std::min<double>(n, n / (10 * oct));
  vf::check(c >= 1 && c <= n && c >= want * (1 - 1e-9) && c <= want * (1 + 1e-9) + 1, "chunk size " + std::to_string(c) + " for " + vf::str(oct) + " octaves, " + std::to_string(n) + " samples");
}

static V grid(vf::Rng& r, size_t n) {
  V v(n);
  double x = r.pick(V{0, 0, 1, 10, 150, -3}) + (r.chance(0.5) ? 0 : r.uniform()), st = r.chance(0.5) ? 1 : r.real(0.1, 2);
  const bool reg = r.chance(0.5);
  for (double& y : v) y = x, x += reg ? st : st * double(1 + r.below(3));
  return v;
}
void vf::search(Rng& r, double secs, bool thorough) {
  t_median({}, {}); t_range({}, -1); t_unwrapfit({}, 1);
  for (Timer t(secs); t.left();) {
    size_t n = 1 + r.below(r.chance(0.15) ? 30 : 7);
    V x = grid(r, n);
    std::vector<FitSample> d;
    double shift = r.chance(0.3) ? (x[0] + x.back()) / 2 : r.chance(0.2) ? x.back() : 0;
    for (size_t i = 0; i < n; ++i) {
      d.push_back({x[i] - shift, r.chance(0.1) ? r.real(-1e4, 1e4) : r.real(-7, 7), r.chance(0.2) ? 0 : r.chance(0.5) ? 1 : r.real(0, 3)});
      if (r.chance(0.05) && i) d[i].x = d[i - 1].x;
    }
    std::sort(d.begin(), d.end(), [](auto& a, auto& b) { return a.x < b.x; });
    t_unwrapfit(d, r.real(-9, 9));
    t_unwrapfit(d, 0.25 * r.range(-20, 20));
    t_range(d, r.chance(0.5) ? -1 : r.below(60));
    t_fit(d, r.below(12), r.real(0.01, 2));
    V xs;
    for (auto& y : d) xs.push_back(y.x);
    if (n < 8) t_exact(xs, r.real(-1, 1) * r.pick(V{1, 3, 10}), r.chance(0.3) ? r.below(n) : -1);
    // piece-wise
    V v(n), w(n);
    const int scale = r.below(4);
    for (size_t i = 0; i < n; ++i) { v[i] = scale == 0 ? r.real(-30, 30) : scale == 1 ? r.real(0, T) : r.real(-M_PI, M_PI); w[i] = r.chance(0.25) ? 0 : r.chance(0.5) ? 1 + r.below(3) : r.real(0, 1); }
    t_unwrap(v);
    V vi(n);
    for (double& y : vi) y = r.chance(0.5) ? r.range(-4, 4) : r.real(-4, 4);
    t_median(vi, w);
    if (r.chance(0.2)) for (double& y : w) y = 1;
    if (scale == 0) for (double& y : v) y = r.real(0, T);
    size_t chunk = r.chance(0.1) ? 0 : 1 + r.below(r.chance(0.3) ? 12 : 5);
    V nu = grid(r, n);
    t_pw(nu, v, w, chunk);
    t_scale(nu, v, w, chunk, r.pick(V{0.125, 1. / 1024, 4, 1024}));
    t_line(nu, w, r.real(0, 9), r.real(-0.95, 0.95) * M_PI / std::max(1e-9, nu.back() - nu[0]), r.below(2));
    t_chunk(r.real(1, 100), r.chance(0.2) ? 1 : r.real(1, 4), 1 + r.below(200));
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  size_t p = 0;
  auto num = [&] { return p < a.size() ? std::stod(a[p++]) : 0.0; };
  auto vec = [&] { V v(std::min(1e5, std::max(0.0, num()))); for (double& x : v) x = num(); return v; };
  auto dat = [&] { std::vector<FitSample> v(std::min(1e5, std::max(0.0, num()))); for (auto& x : v) x.x = num(), x.y = num(), x.weight = num(); return v; };
  auto bad = [](const V& v) { for (double x : v) if (!std::isfinite(x) || std::abs(x) > 1e7) return true; return false; };
  auto neg = [](const V& v) { for (double x : v) if (x < 0) return true; return false; };
  auto asc = [](const V& v) { for (size_t i = 1; i < v.size(); ++i) if (!(v[i] > v[i - 1])) return false; return true; };
  if (t == "unwrapfit" || t == "range" || t == "fit") {
    auto d = dat();
    double u = num(), s = num(), last = -1e300;
    for (auto& x : d) { if (bad({x.x, x.y, x.weight}) || x.weight < 0 || (t == "range" && x.x < last)) return; last = x.x; }
    if (bad({u, s})) return;
    if (t == "unwrapfit") t_unwrapfit(d, u);
    else if (t == "range") t_range(d, int(u));
    else if (u >= 0 && u < 1000 && s > 0) t_fit(d, int(u), s);
  } else if (t == "exact") {
    V x = vec(); double s = num(); int f = num();
    if (!x.empty() && !bad(x) && !bad({s}) && std::is_sorted(x.begin(), x.end())) t_exact(x, s, f);
  } else if (t == "unwrap") { V v = vec(); if (!v.empty() && !bad(v)) t_unwrap(v); }
  else if (t == "median") { V v = vec(), w = vec(); if (v.size() == w.size() && !bad(v) && !bad(w) && !neg(w)) t_median(v, w); }
  else if (t == "pw" || t == "scale") {
    V nu = vec(), d = vec(), w = vec(); double c = num(), f = num();
    if (nu.empty() || nu.size() != d.size() || nu.size() != w.size() || bad(nu) || bad(d) || bad(w) || neg(w) || !asc(nu) || c < 0 || c > 1e6) return;
    if (t == "pw") t_pw(nu, d, w, size_t(c));
    else if (f > 0 && std::frexp(f, std::vector<int>(1).data()) == 0.5) t_scale(nu, d, w, size_t(c), f);
  } else if (t == "line") {
    V nu = vec(), w = vec(); double a0 = num(), b = num(); bool z = num();
    if (nu.size() == w.size() && !bad(nu) && !bad(w) && !neg(w) && asc(nu) && !bad({a0, b})) t_line(nu, w, a0, b, z);
  } else if (t == "chunk") { double f = num(), r = num(), n = num(); if (f > 0 && r >= 1 && n >= 1 && n < 1e6) t_chunk(f, r, size_t(n)); }
}
