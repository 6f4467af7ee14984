#include "vf.h"
#include "ddecal/SolutionResampler.cc"
#include "ddecal/SolutionResampler.h"
using namespace dp3::ddecal;
using std::vector;
typedef std::complex<double> C;
static std::string enc(const vector<size_t>& n) { std::string s; for (size_t x : n) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
static vector<size_t> dec(const std::string& s) { vector<size_t> r; std::stringstream i(s); std::string x; while (std::getline(i, x, ',')) r.push_back(std::stoull(x)); return r; }
// sub-solution of direction d that is valid at the given substep, as a fraction of the interval
static size_t sub(const vector<size_t>& n, size_t d, size_t step, size_t steps) {
  size_t k = 0;
  while ((__int128)(k + 1) * steps <= (__int128)step * n[d]) ++k;
  return k;
}
static size_t first(const vector<size_t>& n, size_t d) { size_t s = 0; for (size_t i = 0; i < d; ++i) s += n[i]; return s; }
static bool valid(const vector<size_t>& n, size_t iv) {
  if (n.empty() || !iv) return false;
  for (size_t x : n) if (!x || iv % x) return false;
  return true;
}
static void steps(const vector<size_t>& n, size_t iv) {
  vf::Case k("substeps", [&] { return enc(n) + " " + std::to_string(iv); });
  if (!valid(n, iv)) return;
  SolutionResampler r(n, 3, iv);
  size_t mx = 0;
  for (size_t x : n) mx = std::max(mx, x);
  bool all = true;
  for (size_t x : n) all = all && mx % x == 0;
  vf::equal(r.GetNrSubSteps(), all ? mx : iv, "number of substeps");
  for (size_t x : n) vf::check(r.GetNrSubSteps() % x == 0, "not a multiple of " + std::to_string(x));
}
static void map(const vector<size_t>& n, size_t na, size_t iv, size_t t, size_t a, size_t d, size_t p, size_t np) {
  vf::Case k("map", [&] { return enc(n) + " " + vf::str(na) + " " + vf::str(iv) + " " + vf::str(t) + " " + vf::str(a) + " " + vf::str(d) + " " + vf::str(p) + " " + vf::str(np); });
  if (!valid(n, iv) || d >= n.size() || p >= np || a >= na) return;
  SolutionResampler r(n, na, iv);
  size_t ns = r.GetNrSubSteps(), tot = first(n, n.size());
  auto g = r.MapResampledToOriginal(t, a, d, p, np);
  vf::equal(g.first, t / ns, "solution interval");
  vf::equal(g.second, (a * tot + first(n, d) + sub(n, d, t % ns, ns)) * np + p, "index in the solution vector");
}
static void up(const vector<size_t>& n, size_t na, size_t iv, size_t nt, size_t nch, size_t np, uint64_t seed) {
  vf::Case k("upsample", [&] { return enc(n) + " " + vf::str(na) + " " + vf::str(iv) + " " + vf::str(nt) + " " + vf::str(nch) + " " + vf::str(np) + " " + vf::str(seed); });
  vf::Rng r(seed);
  SolutionResampler s(n, na, iv);
  size_t ns = s.GetNrSubSteps(), tot = first(n, n.size()), nd = n.size();
  vector<vector<vector<C>>> in(nt, vector<vector<C>>(nch, vector<C>(na * tot * np)));
  double c = 0;
  for (auto& x : in) for (auto& y : x) for (auto& z : y) z = C(++c, r.real(-9, 9));
  auto o = s.Upsample(in, np);
  vf::equal(o.size(), nt * ns, "number of time steps");
  for (size_t t = 0; t < o.size(); ++t) {
    vf::equal(o[t].size(), nch, "number of channel blocks");
    for (size_t ch = 0; ch < nch; ++ch) {
      vf::equal(o[t][ch].size(), na * nd * np, "solutions per channel block");
      for (size_t a = 0; a < na; ++a) for (size_t d = 0; d < nd; ++d) for (size_t p = 0; p < np; ++p)
        vf::equal(o[t][ch][(a * nd + d) * np + p], in[t / ns][ch][(a * tot + first(n, d) + sub(n, d, t % ns, ns)) * np + p],
                  "solution at time " + vf::str(t) + " channel " + vf::str(ch) + " antenna " + vf::str(a) + " direction " + vf::str(d) + " pol " + vf::str(p));
    }
  }
}
static void upc(const vector<size_t>& n, size_t iv, size_t nt, size_t nc, size_t nsub, uint64_t seed) {
  vf::Case k("constraint", [&] { return enc(n) + " " + vf::str(iv) + " " + vf::str(nt) + " " + vf::str(nc) + " " + vf::str(nsub) + " " + vf::str(seed); });
  vf::Rng r(seed);
  SolutionResampler s(n, 1 + r.below(4), iv);
  size_t ns = s.GetNrSubSteps(), tot = first(n, n.size()), nd = n.size();
  vector<vector<vector<ConstraintResult>>> in(nt, vector<vector<ConstraintResult>>(nc, vector<ConstraintResult>(nsub)));
  double c = 0;
  for (size_t ci = 0; ci < nc; ++ci) for (size_t si = 0; si < nsub; ++si) {
    size_t ax = 2 + r.below(3);
    vector<size_t> dims{1 + r.below(3), tot};
    while (dims.size() < ax) dims.push_back(1 + r.below(3));
    size_t nv = 1;
    for (size_t x : dims) nv *= x;
    for (size_t t = 0; t < nt; ++t) {
      auto& q = in[t][ci][si];
      q.dims = dims; q.axes = "ant,dir" + std::to_string(ax); q.name = "n" + std::to_string(c);
      for (size_t i = 0; i < nv; ++i) { q.vals.push_back(++c); q.weights.push_back(r.real(0, 9) + c); }
    }
  }
  auto o = s.Upsample(in);
  vf::equal(o.size(), nt * ns, "number of time steps");
  for (size_t t = 0; t < o.size(); ++t) {
    vf::equal(o[t].size(), nc, "constraints");
    for (size_t ci = 0; ci < nc; ++ci) {
      vf::equal(o[t][ci].size(), nsub, "sub types");
      for (size_t si = 0; si < nsub; ++si) {
        auto& q = in[t / ns][ci][si];
        auto& z = o[t][ci][si];
        auto dm = q.dims;
        dm[1] = nd;
        vf::check(z.dims == dm, "dims");
        vf::equal(z.axes, q.axes, "axes");
        vf::equal(z.name, q.name, "name");
        size_t res = q.vals.size() / (q.dims[0] * tot);
        vf::equal(z.vals.size(), q.dims[0] * nd * res, "number of values");
        vf::equal(z.weights.size(), z.vals.size(), "number of weights");
        for (size_t a = 0; a < q.dims[0]; ++a) for (size_t d = 0; d < nd; ++d) for (size_t i = 0; i < res; ++i) {
          size_t f = (a * tot + first(n, d) + sub(n, d, t % ns, ns)) * res + i, g = (a * nd + d) * res + i;
          vf::equal(z.vals[g], q.vals[f], "value at time " + vf::str(t) + " antenna " + vf::str(a) + " direction " + vf::str(d) + " item " + vf::str(i));
          vf::equal(z.weights[g], q.weights[f], "weight at time " + vf::str(t) + " antenna " + vf::str(a) + " direction " + vf::str(d) + " item " + vf::str(i));
        }
      }
    }
  }
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 20; ++j) {
      size_t iv = r.chance(0.3) ? 1 + r.below(6) : r.pick(vector<size_t>{4, 6, 8, 12, 15, 24, 30, 36, 60});
      vector<size_t> dv, n;
      for (size_t x = 1; x <= iv; ++x) if (iv % x == 0) dv.push_back(x);
      size_t nd = 1 + r.below(5);
      for (size_t d = 0; d < nd; ++d) n.push_back(r.chance(0.3) && d ? n.back() : r.pick(dv));
      steps(n, iv);
      size_t na = 1 + r.below(4), np = 1 + r.below(4);
      for (int q = 0; q < 20; ++q) map(n, na, iv, r.below(5 * iv), r.below(na), r.below(nd), r.below(np), np);
      up(n, na, iv, 1 + r.below(4), 1 + r.below(3), np, r.next() >> 8);
      upc(n, iv, r.below(4), r.below(3), r.below(3), r.next() >> 8);
      // large values
      size_t m = (size_t(1) << r.range(1, 20)) * (1 + r.below(9));
      vector<size_t> big{m, m / 2, m};
      if (r.chance(0.3)) big.push_back(1);
      steps(big, m * (1 + r.below(5)));
    }
}
void vf::run_case(const std::string& t, const vector<std::string>& a) {
  auto u = [&](size_t i) { return size_t(std::stoull(a[i])); };
  if (t == "substeps") steps(dec(a[0]), u(1));
  if (t == "map") map(dec(a[0]), u(1), u(2), u(3), u(4), u(5), u(6), u(7));
  if (t == "upsample") up(dec(a[0]), u(1), u(2), u(3), u(4), u(5), u(6));
  if (t == "constraint") upc(dec(a[0]), u(1), u(2), u(3), u(4), u(5));
}
