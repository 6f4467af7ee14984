#include "vf.h"
#include "ddecal/linear_solvers/LLSSolver.cc"
using namespace dp3::ddecal;
typedef std::complex<float> F;
typedef std::complex<double> D;
static const LLSSolverType kTypes[] = {LLSSolverType::NORMAL_EQUATIONS, LLSSolverType::QR, LLSSolverType::SVD};
static const char* kNames[] = {"NormalEquations", "QR", "SVD"};
struct Problem {
  int m, n, p;
  std::vector<F> a, b;
  int ld;
};
static double gauss(vf::Rng& r) { double s = 0; for (int i = 0; i < 12; ++i) s += r.uniform(); return s - 6; }
static Problem make(vf::Rng& r, int m, int n, int p, int kind, double scale) {
  Problem q{m, n, p, {}, {}, std::max(m, n)};
  q.a.resize(size_t(m) * n);
  q.b.resize(size_t(q.ld) * p);
  for (auto& x : q.a) x = kind == 1 ? F(r.range(-3, 3), r.range(-3, 3)) : F(scale * gauss(r), scale * gauss(r));
  for (int j = 0; j < p; ++j)
    for (int i = 0; i < q.ld; ++i) q.b[i + size_t(j) * q.ld] = i < m ? F(gauss(r), gauss(r)) : F(0, 0);
  return q;
}
// smallest pivot of A^H A relative to the largest diagonal element
static double pivot(const Problem& q) {
  int n = q.n;
  std::vector<D> g(n * n);
  double big = 0;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      D s = 0;
      for (int k = 0; k < q.m; ++k) s += std::conj(D(q.a[k + i * q.m])) * D(q.a[k + j * q.m]);
      g[i + j * n] = s;
      if (i == j) big = std::max(big, s.real());
    }
  double low = 1e300;
  for (int i = 0; i < n; ++i) {
    double d = g[i + i * n].real();
    low = std::min(low, d);
    if (d <= 0) return 0;
    for (int j = i + 1; j < n; ++j) {
      D f = g[j + i * n] / d;
      for (int k = i; k < n; ++k) g[j + k * n] -= f * g[i + k * n];
    }
  }
  return low / (big > 0 ? big : 1);
}
static void judge(const Problem& q, const std::vector<F>& x, int ldx, const char* name) {
  double na = 0;
  for (auto& v : q.a) na += std::norm(D(v));
  na = std::sqrt(na);
  for (int j = 0; j < q.p; ++j) {
    double nx = 0, nb = 0;
    std::vector<D> res(q.m);
    for (int i = 0; i < q.m; ++i) {
      D s = -D(q.b[i + size_t(j) * q.ld]);
      nb += std::norm(s);
      for (int k = 0; k < q.n; ++k) s += D(q.a[i + k * q.m]) * D(x[k + size_t(j) * ldx]);
      res[i] = s;
    }
    for (int k = 0; k < q.n; ++k) nx += std::norm(D(x[k + size_t(j) * ldx]));
    double lim = 2e-5 * na * (na * std::sqrt(nx) + std::sqrt(nb)) + 1e-30;
    for (int k = 0; k < q.n; ++k) {
      D s = 0;
      for (int i = 0; i < q.m; ++i) s += std::conj(D(q.a[i + k * q.m])) * res[i];
      vf::check(std::abs(s) <= lim, std::string(name) + ": column " + std::to_string(j) + " is not the least-squares solution: A^H(Ax-b) has element " +
                                        std::to_string(k) + " = " + vf::str(std::abs(s)) + " > " + vf::str(lim));
    }
  }
}
static void one(LLSSolver& s, int type, const Problem& q, bool fresh) {
  std::vector<F> a = q.a, b = q.b;
  b.resize(b.size() + 3, F(77, 78));
  bool ok = s.Solve(a.data(), b.data());
  vf::check(ok, std::string(kNames[type]) + " reports failure on a full-rank system");
  judge(q, b, type == 0 ? q.n : q.ld, kNames[type]);
  for (int i = 0; i < 3; ++i) vf::check(b[b.size() - 3 + i] == F(77, 78), std::string(kNames[type]) + ": wrote beyond b");
  if (type == 0) vf::check(a == q.a, "normal equations changed A");
}
static void t_full(uint64_t seed, int m, int n, int p, int reuse) {
  vf::Case k("full", [&] { return std::to_string(seed) + " " + std::to_string(m) + " " + std::to_string(n) + " " + std::to_string(p) + " " + std::to_string(reuse); });
  vf::Rng r(seed);
  std::unique_ptr<LLSSolver> s[3];
  for (int t = 0; t < 3; ++t) s[t] = LLSSolver::Make(kTypes[t], m, n, p);
  for (int u = 0; u <= reuse; ++u) {
    const double scale = r.chance(0.2) ? std::pow(10.0, r.range(-4, 4)) : 1;
    Problem q = make(r, m, n, p, r.chance(0.2), scale);
    double pv = pivot(q);
    if (pv < 1e-3) continue;
    for (int t = 0; t < 3; ++t) one(*s[t], t, q, u == 0);
  }
}
static std::string dims(int m, int n, int p, uint64_t seed) {
  return std::to_string(seed) + " " + std::to_string(m) + " " + std::to_string(n) + " " + std::to_string(p);
}
// a system with fewer rows than unknowns, or with a zero column
static void t_def(uint64_t seed, int m, int n, int p) {
  vf::Case k("deficient", [&] { return dims(m, n, p, seed); });
  vf::Rng r(seed);
  Problem q = make(r, m, n, p, 0, 1);
  int zero = m >= n ? int(r.below(n)) : -1;
  if (zero >= 0) for (int i = 0; i < m; ++i) q.a[i + zero * m] = 0;
  for (int t = 0; t < 2; ++t) {
    if (t == 0 && m < n) continue;  // singular up to rounding only
    if (t == 1 && n == 1) continue;  // an all-zero A is solved by x = 0
    std::vector<F> a = q.a, b = q.b;
    auto s = LLSSolver::Make(kTypes[t], m, n, p);
    vf::check(!s->Solve(a.data(), b.data()), std::string(kNames[t]) + " reports success on a rank-deficient system");
    if (t == 1 && m < n) vf::check(a == q.a && b == q.b, "QR changed its input although there are fewer rows than unknowns");
  }
  // SVD: minimum-norm solution when underdetermined
  if (m < n) {
    std::vector<F> a = q.a, b = q.b;
    auto s = LLSSolver::Make(LLSSolverType::SVD, m, n, p);
    vf::check(s->Solve(a.data(), b.data()), "SVD reports failure");
    judge(q, b, q.ld, "SVD");
  }
}
void vf::search(Rng& r, double secs, bool thorough) {
  for (int m = 1; m < 7; ++m)
    for (int n = 1; n < 7; ++n)
      for (int p = 1; p < 4; ++p) {
        t_def(r.next() >> 8, m, n, p);
        if (m >= n) t_full(r.next() >> 8, m, n, p, 2);
      }
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 20; ++j) {
      int n = r.chance(0.1) ? 1 + r.below(24) : 1 + r.below(8), m = n + r.below(r.chance(0.1) ? 90 : 12), p = 1 + r.below(3);
      t_full(r.next() >> 8, m, n, p, r.below(4));
      if (r.chance(0.3)) t_def(r.next() >> 8, r.chance(0.5) ? m : 1 + r.below(n), n, p);
    }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  if (t == "full") t_full(std::stoull(a[0]), std::stoi(a[1]), std::stoi(a[2]), std::stoi(a[3]), std::stoi(a[4]));
  if (t == "deficient") t_def(std::stoull(a[0]), std::stoi(a[1]), std::stoi(a[2]), std::stoi(a[3]));
}
