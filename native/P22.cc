#include "vf.h"
#include "units/sky.h"
using namespace dp3::base;
typedef std::complex<double> CD;
static double num(const std::string& s) { return std::stod(s); }
static bool near(double a, double b, double e) { return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= e * (1 + std::abs(b)); }

// ---- one component: flux at a frequency
struct Src {
  double ra, dec, I, Q, U, V;
  bool log;
  double ref;
  std::vector<double> terms;
  bool rm;
  double frac, ang, rmv;
  bool gauss, absolute;
  double pa, maj, min;
};
static Src source(vf::Rng& r) {
  Src s;
  s.ra = r.real(-3, 3); s.dec = r.real(-1.5, 1.5);
  s.I = r.real(-2, 5); s.Q = r.real(-1, 1); s.U = r.real(-1, 1); s.V = r.real(-1, 1);
  s.log = r.chance(0.5); s.ref = r.real(1e8, 2e8);
  s.terms.resize(r.below(5));
  for (double& t : s.terms) t = r.real(-1.5, 1.5);
  s.rm = r.chance(0.4); s.frac = r.real(0, 1); s.ang = r.real(-3, 3); s.rmv = r.real(-2, 2);
  s.gauss = r.chance(0.5); s.absolute = r.chance(0.5);
  s.pa = r.real(-3, 3); s.maj = r.real(0, 3e-4); s.min = r.real(0, 3e-4);
  if (r.chance(0.3)) s.Q = s.U = s.V = 0;
  return s;
}
static std::shared_ptr<PointSource> make(const Src& s) {
  Stokes st; st.I = s.I; st.Q = s.Q; st.U = s.U; st.V = s.V;
  std::shared_ptr<PointSource> p;
  const Direction d(s.ra, s.dec);
  if (s.gauss) {
    auto g = std::make_shared<GaussianSource>(d, st);
    g->setPositionAngle(s.pa); g->setMajorAxis(s.maj); g->setMinorAxis(s.min);
    g->setPositionAngleIsAbsolute(s.absolute);
    p = g;
  } else p = std::make_shared<PointSource>(d, st);
  if (!s.terms.empty()) p->setSpectralTerms(s.ref, s.log, s.terms.begin(), s.terms.end());
  if (s.rm) p->setRotationMeasure(s.frac, s.ang, s.rmv);
  return p;
}
static Stokes flux(const Src& s, double f) {
  Stokes st; st.I = s.I; st.Q = s.Q; st.U = s.U; st.V = s.V;
  if (!s.terms.empty()) {
    if (s.log) {
      double e = 0, x = 1;
      for (double t : s.terms) { e += t * x; x *= std::log10(f / s.ref); }
      st.I = s.I * std::pow(f / s.ref, e);
    } else {
      double x = 1;
      for (double t : s.terms) { x *= f / s.ref - 1; st.I += t * x; }
    }
  }
  if (s.rm) {
    const double l = 299792458.0 / f, chi = 2 * (s.ang + s.rmv * l * l);
    st.Q = st.I * s.frac * std::cos(chi); st.U = st.I * s.frac * std::sin(chi);
  }
  return st;
}
static void t_flux(uint64_t seed) {
  vf::Case k("flux", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  const Src s = source(r);
  auto p = make(s);
  for (int i = 0; i < 3; ++i) {
    const double f = i ? r.real(3e7, 4e8) : s.ref;
    const Stokes g = p->stokes(f), w = flux(s, f);
    vf::check(near(g.I, w.I, 1e-9) && near(g.Q, w.Q, 1e-7) && near(g.U, w.U, 1e-7) && near(g.V, w.V, 1e-12), "Stokes parameters at " + std::to_string(f));
  }
  const Stokes g = p->stokes();
  vf::check(g.I == s.I && g.Q == s.Q && g.U == s.U && g.V == s.V, "Stokes parameters at the reference frequency");
  vf::check(p->hasSpectralTerms() == !s.terms.empty() && p->hasRotationMeasure() == s.rm && p->spectrum() == s.terms, "spectral properties");
  vf::check(p->direction().ra == s.ra && p->direction().dec == s.dec, "direction");
  // replacing the terms drops the old ones
  std::vector<double> other(r.below(3), 0.25);
  p->setSpectralTerms(1.5e8, true, other.begin(), other.end());
  vf::check(p->spectrum() == other, "new spectral terms");
  // a source without further settings has an absolute position angle
  alignas(GaussianSource) unsigned char raw[sizeof(GaussianSource)];
  for (unsigned char fill : {0, 255}) {
    std::memset(raw, fill, sizeof raw);
    GaussianSource* gs = new (raw) GaussianSource(Direction(0, 0));
    unsigned char b; bool v = gs->getPositionAngleIsAbsolute(); std::memcpy(&b, &v, 1);
    gs->~GaussianSource();
    vf::check(b == 1, "the position angle is absolute unless set otherwise");
  }
}

// ---- predicted visibilities
struct V3 { double x, y, z; };
static double dot(const V3& a, const V3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
// directions of u (east), v (north) and w at (ra, dec), with x to ra 90 deg and y to ra 0
static void axes(double ra, double dec, V3 a[3]) {
  a[2] = {std::sin(ra) * std::cos(dec), std::cos(ra) * std::cos(dec), std::sin(dec)};
  a[0] = {std::cos(ra), -std::sin(ra), 0};
  a[1] = {-std::sin(ra) * std::sin(dec), -std::cos(ra) * std::sin(dec), std::cos(dec)};
}
static double sincd(double x) { return std::abs(x) < 1e-6 ? 1 : std::sin(x) / x; }
static void t_sim(uint64_t seed, size_t nst, size_t nch, size_t nbl, size_t nsrc, int flags) {
  vf::Case k("sim", [&] { return std::to_string(seed) + " " + std::to_string(nst) + " " + std::to_string(nch) + " " + std::to_string(nbl) + " " + std::to_string(nsrc) + " " + std::to_string(flags); });
  vf::Rng r(seed);
  const bool time = flags & 1, freqs = flags & 2, ionly = flags & 4;
  const Direction ref(r.real(-3, 3), r.real(-1.4, 1.4));
  std::vector<Baseline> bl(nbl);
  for (Baseline& b : bl) b = {r.below(nst), r.below(nst)};
  std::vector<double> f(nch), w(nch);
  for (size_t i = 0; i < nch; ++i) { f[i] = r.real(4e7, 3e8); w[i] = r.real(1e3, 3e5); }
  const std::array<double, 3> ncp{0.0, 7.2e-5 * 10 * std::cos(ref.dec), 7.2e-5 * 10 * std::sin(ref.dec)};
  xt::xtensor<double, 2> uvw(std::array<size_t, 2>{nst, 3});
  for (size_t s = 0; s < nst; ++s) for (int j = 0; j < 3; ++j) uvw(s, j) = r.real(-3000, 3000);
  const size_t nc = ionly ? 1 : 4;
  casacore::Cube<CD> buf(nc, nch, nbl);
  for (size_t i = 0; i < buf.size(); ++i) buf.data()[i] = CD(r.range(-3, 3), r.range(-3, 3));
  std::vector<CD> want(buf.data(), buf.data() + buf.size());
  std::unique_ptr<Simulator> sim;
  if (flags & 1 || r.chance(0.5)) sim.reset(new Simulator(ref, nst, bl, f, w, ncp, uvw, buf, time, freqs, ionly));
  else sim.reset(new Simulator(ref, nst, bl, f, w, uvw, buf, freqs, ionly));
  V3 pc[3], at[3];
  axes(ref.ra, ref.dec, pc);
  for (size_t n = 0; n < nsrc; ++n) {
    Src s = source(r);
    s.ra = ref.ra + r.real(-0.05, 0.05); s.dec = ref.dec + r.real(-0.05, 0.05);
    if (r.chance(0.2)) s.ra = ref.ra, s.dec = ref.dec;
    sim->simulate(make(s));
    axes(s.ra, s.dec, at);
    const double l = dot(pc[0], at[2]), m = dot(pc[1], at[2]), nn = dot(pc[2], at[2]);
    for (size_t b = 0; b < nbl; ++b) {
      const size_t p = bl[b].first, q = bl[b].second;
      if (p == q) continue;
      const double u = uvw(q, 0) - uvw(p, 0), v = uvw(q, 1) - uvw(p, 1), ww = uvw(q, 2) - uvw(p, 2);
      const double C = 2 * M_PI / 299792458.0, phase = C * (u * l + v * m + ww * (nn - 1));
      // rate of change of the phase while the sky turns about the pole
      const double rot = C * (l * (v * ncp[2] - ww * ncp[1]) - m * u * ncp[2] + (nn - 1) * u * ncp[1]);
      double amp = 0;
      if (s.gauss) {
        double us = u, vs = v;
        if (s.absolute) {
          const V3 d{u * pc[0].x + v * pc[1].x + ww * pc[2].x, u * pc[0].y + v * pc[1].y + ww * pc[2].y, u * pc[0].z + v * pc[1].z + ww * pc[2].z};
          us = dot(d, at[0]); vs = dot(d, at[1]);
        }
        // along the major axis (position angle from north through east) and the minor axis
        const double a = us * std::sin(s.pa) + vs * std::cos(s.pa), c = us * std::cos(s.pa) - vs * std::sin(s.pa);
        const double sig = 1 / (2 * std::sqrt(2 * std::log(2.0)));
        amp = -2 * M_PI * M_PI * (std::pow(a * s.maj * sig, 2) + std::pow(c * s.min * sig, 2)) / (299792458.0 * 299792458.0);
      }
      for (size_t ch = 0; ch < nch; ++ch) {
        const Stokes st = flux(s, f[ch]);
        CD x = std::polar(1.0, phase * f[ch]);
        if (s.gauss) x *= std::exp(amp * f[ch] * f[ch]);
        if (time) x *= sincd(0.5 * rot * f[ch]);
        if (freqs) x *= sincd(0.5 * phase * w[ch]);
        CD* o = &want[(b * nch + ch) * nc];
        if (ionly) o[0] += x * st.I;
        else { o[0] += x * (st.I + st.Q); o[1] += x * CD(st.U, st.V); o[2] += x * CD(st.U, -st.V); o[3] += x * (st.I - st.Q); }
      }
    }
    for (size_t i = 0; i < want.size(); ++i)
      vf::check(std::abs(buf.data()[i] - want[i]) < 1e-4 * (1 + std::abs(want[i])), "visibility " + std::to_string(i) + " after " + (s.gauss ? "a Gaussian" : "a point") + " source: " + std::to_string(buf.data()[i].real()) + " instead of " + std::to_string(want[i].real()));
  }
}

static void t_lmn(uint64_t seed) {
  vf::Case k("lmn", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  const Direction a(r.real(-7, 7), r.real(-1.57, 1.57)), b(r.real(-7, 7), r.real(-1.57, 1.57));
  V3 pc[3], at[3];
  axes(a.ra, a.dec, pc);
  axes(b.ra, b.dec, at);
  double lmn[3];
  radec2lmn(a, b, lmn);
  for (int i = 0; i < 3; ++i) vf::check(std::abs(lmn[i] - dot(pc[i], at[2])) < 1e-12, "direction cosine " + std::to_string(i));
}

// ---- patches
static void t_patch(uint64_t seed, size_t n) {
  vf::Case k("patch", [&] { return std::to_string(seed) + " " + std::to_string(n); });
  vf::Rng r(seed);
  std::vector<std::shared_ptr<ModelComponent>> c;
  V3 sum{0, 0, 0};
  const double ra = r.real(-4, 4), dec = r.real(-1.5, 1.5);
  for (size_t i = 0; i < n; ++i) {
    const Direction d(ra + r.real(-0.2, 0.2) + (r.chance(0.3) ? 2 * M_PI : 0), std::max(-1.57, std::min(1.57, dec + r.real(-0.2, 0.2))));
    c.push_back(std::make_shared<PointSource>(d));
    sum.x += std::cos(d.ra) * std::cos(d.dec) / n; sum.y += std::sin(d.ra) * std::cos(d.dec) / n; sum.z += std::sin(d.dec) / n;
  }
  dp3::sky_model::Patch p("a", c.begin(), c.end());
  const Direction d = p.Direction();
  vf::check(p.NComponents() == n && p.Name() == "a", "components of the patch");
  for (size_t i = 0; i < n; ++i) vf::check(p.component(i) == c[i], "component of the patch");
  if (!n) vf::check(d.ra == 0 && d.dec == 0, "direction of an empty patch");
  else vf::check(std::abs(std::sin(d.dec) - sum.z) < 1e-9 && std::abs(std::remainder(d.ra - std::atan2(sum.y, sum.x), 2 * M_PI)) < 1e-7, "direction of the patch: mean of its components");
}

void vf::search(Rng& r, double secs, bool) {
  for (Timer t(secs); t.left();) {
    t_flux(r.next() >> 16);
    t_lmn(r.next() >> 16);
    t_patch(r.next() >> 16, r.below(6));
    t_sim(r.next() >> 16, 1 + r.below(6), 1 + r.below(5), r.below(8), 1 + r.below(3), r.below(8));
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  auto u = [&](size_t i) { return std::stoull(a.at(i)); };
  if (t == "flux") return t_flux(u(0));
  if (t == "lmn") return t_lmn(u(0));
  if (t == "patch") { if (u(1) > 1000) return; return t_patch(u(0), u(1)); }
  if (t == "sim") { if (u(1) < 1 || u(2) < 1 || u(1) > 100 || u(2) > 100 || u(3) > 100 || u(4) > 20 || u(5) > 7) return; return t_sim(u(0), u(1), u(2), u(3), u(4), u(5)); }
}
