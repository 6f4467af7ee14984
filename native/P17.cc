#include "vf.h"
#include <memory>
#include <optional>
#undef NDEBUG
#include <aocommon/uvector.h>
#include "base/BdaBuffer.cc"
#include "common/Fields.cc"
using dp3::base::BdaBuffer;
using dp3::common::Fields;
typedef std::complex<float> CF;
typedef std::optional<CF> OC;
struct RowM {
  double time, interval, exposure;
  unsigned long long nr;
  size_t bl, nch, ncor;
  bool has_uvw;
  double uvw[3];
};
// what the buffer holds; unknown values were never initialised
struct Model {
  size_t pool = 0, used = 0;
  bool flags = false, weights = false;
  std::vector<RowM> rows;
  std::map<std::string, std::vector<OC>> data;
  std::vector<std::optional<bool>> f;
  std::vector<std::optional<float>> w;
};
struct Pair { std::unique_ptr<BdaBuffer> b; Model m; };

static Fields fields(unsigned k) {
  Fields f;
  if (k & 1) f |= Fields(Fields::Single::kData);
  if (k & 2) f |= Fields(Fields::Single::kFlags);
  if (k & 4) f |= Fields(Fields::Single::kWeights);
  if (k & 8) f |= Fields(Fields::Single::kUvw);
  return f;
}
static bool eqf(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void compare(Pair& p, const char* op) {
  BdaBuffer& b = *p.b;
  const BdaBuffer& cb = b;
  const Model& m = p.m;
  const std::string w = std::string(" after ") + op;
  vf::check(b.GetNumberOfElements() == m.used, "number of elements" + w);
  vf::check(b.GetRemainingCapacity() == m.pool - m.used, "remaining capacity" + w);
  vf::check(cb.GetRows().size() == m.rows.size(), "number of rows" + w);
  std::vector<std::string> names;
  for (auto& d : m.data) names.push_back(d.first);
  vf::check(b.GetDataNames() == names, "names of the data buffers" + w);
  for (const char* n : {"", "x", "y"}) {
    vf::check(b.HasData(n) == (m.data.count(n) > 0), "HasData" + w);
    if (!m.data.count(n) || m.used == 0) vf::check(b.GetData(std::string(n)) == nullptr && cb.GetData(std::string(n)) == nullptr, "a buffer without data must be null" + w);
  }
  if (!m.flags || m.used == 0) vf::check(b.GetFlags() == nullptr && cb.GetFlags() == nullptr, "no flags: null" + w);
  if (!m.weights || m.used == 0) vf::check(b.GetWeights() == nullptr && cb.GetWeights() == nullptr, "no weights: null" + w);
  size_t off = 0;
  for (size_t i = 0; i < m.rows.size(); ++i) {
    const RowM& r = m.rows[i];
    const BdaBuffer::Row& g = cb.GetRows()[i];
    vf::check(g.time == r.time && g.interval == r.interval && g.exposure == r.exposure && g.row_nr == r.nr && g.baseline_nr == r.bl && g.n_channels == r.nch && g.n_correlations == r.ncor, "metadata of row " + std::to_string(i) + w);
    for (int k = 0; k < 3; ++k) vf::check(r.has_uvw ? g.uvw[k] == r.uvw[k] : std::isnan(g.uvw[k]), "uvw of row " + std::to_string(i) + w);
    const size_t n = r.nch * r.ncor;
    vf::check(g.GetDataSize() == n, "size of row " + std::to_string(i) + w);
    if (n) {
      for (auto& d : m.data) {
        const CF *q = cb.GetData(i, d.first), *q2 = b.GetData(i, d.first);
        vf::check(q && q == q2 && q == cb.GetData(d.first) + off, "data of row " + std::to_string(i) + " at the wrong place" + w);
        for (size_t k = 0; k < n; ++k)
          if (d.second[off + k]) vf::check(eqf(q[k].real(), d.second[off + k]->real()) && eqf(q[k].imag(), d.second[off + k]->imag()), "data '" + d.first + "' of row " + std::to_string(i) + w);
      }
      if (m.flags) {
        const bool *q = cb.GetFlags(i), *q2 = b.GetFlags(i);
        vf::check(q && q == q2 && q == cb.GetFlags() + off, "flags of row " + std::to_string(i) + " at the wrong place" + w);
        for (size_t k = 0; k < n; ++k) if (m.f[off + k]) vf::check(q[k] == *m.f[off + k], "flags of row " + std::to_string(i) + w);
      }
      if (m.weights) {
        const float *q = cb.GetWeights(i), *q2 = b.GetWeights(i);
        vf::check(q && q == q2 && q == cb.GetWeights() + off, "weights of row " + std::to_string(i) + " at the wrong place" + w);
        for (size_t k = 0; k < n; ++k) if (m.w[off + k]) vf::check(eqf(q[k], *m.w[off + k]), "weights of row " + std::to_string(i) + w);
      }
    }
    off += n;
  }
}
static bool near(double a, double b) { return std::abs(a - b) < 2e-6; }
static bool tie(double a, double b) { return std::abs(std::abs(a - b) - 2e-6) < 1e-8; }

static void t_ops(uint64_t seed, size_t steps) {
  vf::Case k("ops", [&] { return std::to_string(seed) + " " + std::to_string(steps); });
  vf::Rng r(seed);
  std::vector<Pair> all(3);
  auto make = [&](Pair& p) {
    const size_t pool = r.below(40);
    const unsigned fs = r.below(16);
    p.m = Model();
    p.m.pool = pool;
    p.m.flags = fs & 2, p.m.weights = fs & 4;
    if (pool == 0) p.m.flags = p.m.weights = false;  // nothing can be stored
    if (fs & 1) p.m.data[""];
    p.b = std::make_unique<BdaBuffer>(pool, fields(fs));
  };
  for (Pair& p : all) make(p);
  static const char* names[] = {"", "x", "y"};
  double base = 1 + double(r.below(5)) * 1e9;
  for (size_t s = 0; s < steps; ++s) {
    Pair& p = all[r.below(3)];
    Model& m = p.m;
    const char* op = "?";
    const size_t what = r.below(20);
    if (what < 11) {
      op = "AddRow";
      RowM row;
      const double last = m.rows.empty() ? base : m.rows.back().time;
      row.interval = r.pick(std::vector<double>{1, 2, 4, 0.5});
      row.time = last + (r.chance(0.2) ? -double(r.below(12)) / 4 : double(r.below(5)) / 2) + (r.chance(0.1) ? 1e-6 : 0);
      row.exposure = r.real(0, 2);
      row.nr = r.below(100), row.bl = r.below(10), row.nch = r.below(5), row.ncor = r.pick(std::vector<size_t>{1, 2, 4});
      row.has_uvw = r.chance(0.7);
      for (double& x : row.uvw) x = r.real(-100, 100);
      const size_t n = row.nch * row.ncor;
      std::vector<CF> d(n);
      std::vector<float> w(n);
      std::unique_ptr<bool[]> f(new bool[n + 1]);
      for (size_t i = 0; i < n; ++i) d[i] = CF(r.range(-9, 9), r.range(-9, 9)), w[i] = r.below(9), f[i] = r.chance(0.5);
      if (n && r.chance(0.1)) d[0] = CF(NAN, 1);
      const bool hd = r.chance(0.7), hf = r.chance(0.7), hw = r.chance(0.7);
      const double end = row.time + row.interval / 2, start = m.rows.empty() ? 0 : m.rows.back().time - m.rows.back().interval / 2;
      if (!m.rows.empty() && std::abs(std::abs(end - start) - 2e-6) < 1e-6) continue;
      const bool bad = !m.rows.empty() && end <= start + 2e-6;
      bool threw = false, got = false;
      try {
        got = p.b->AddRow(row.time, row.interval, row.exposure, row.bl, row.nch, row.ncor, row.nr, hd ? d.data() : nullptr, hf ? f.get() : nullptr, hw ? w.data() : nullptr, row.has_uvw ? row.uvw : nullptr);
      } catch (const std::invalid_argument&) { threw = true; }
      vf::check(threw == bad, bad ? "a row before the start of the last row must be refused" : "a row in order must not be refused");
      if (!threw) {
        vf::check(got == (n <= m.pool - m.used), got ? "a row that does not fit was accepted" : "a row that fits was not accepted");
        if (got) {
          for (auto& x : m.data)
            for (size_t i = 0; i < n; ++i) x.second.push_back(x.first.empty() && hd ? d[i] : CF(0, 0));
          for (size_t i = 0; i < n; ++i) { m.f.push_back(hf && f[i]); m.w.push_back(hw ? w[i] : 0.f); }
          m.rows.push_back(row);
          m.used += n;
        }
      }
    } else if (what == 11) {
      op = "AddData";
      const std::string nm = names[r.below(3)];
      p.b->AddData(nm);
      m.data.try_emplace(nm, m.used);
    } else if (what == 12) {
      op = "RemoveData";
      const std::string nm = names[r.below(3)];
      p.b->RemoveData(nm);
      m.data.erase(nm);
    } else if (what < 15) {
      op = "MoveData";
      Pair& q = all[r.below(3)];
      const std::string from = names[r.below(3)], to = names[r.below(3)];
      if (!q.m.data.count(from) || q.m.used != m.used) continue;
      p.b->MoveData(*q.b, from, to);
      if (&p != &q || from != to) {
        auto v = q.m.data[from];
        q.m.data.erase(from);
        m.data[to] = v;
      }
      compare(q, op);
    } else if (what == 15) {
      op = "Clear";
      p.b->Clear();
      m.used = 0;
      m.rows.clear(), m.f.clear(), m.w.clear();
      for (auto& d : m.data) d.second.clear();
    } else if (what < 18) {
      op = "copy";
      Pair& q = all[r.below(3)];
      if (&p == &q) continue;
      const unsigned fs = r.below(16);
      p.b = std::make_unique<BdaBuffer>(*q.b, fields(fs));
      Model c;
      c.pool = c.used = q.m.used;
      c.rows = q.m.rows;
      if (fs & 1) { c.data = q.m.data; c.data.try_emplace("", c.used); }
      c.flags = (fs & 2) && c.used, c.weights = (fs & 4) && c.used;
      c.f = q.m.flags ? q.m.f : decltype(c.f)(c.used);
      c.w = q.m.weights ? q.m.w : decltype(c.w)(c.used);
      p.m = c;
      vf::check(q.b->IsMetadataEqual(*p.b) && p.b->IsMetadataEqual(*q.b), "a copy has equal metadata");
      compare(q, op);
    } else if (what == 18) {
      op = "change";
      // writing through the pointers reaches this row only
      if (m.rows.empty()) continue;
      const size_t i = r.below(m.rows.size()), n = m.rows[i].nch * m.rows[i].ncor;
      size_t off = 0;
      for (size_t j = 0; j < i; ++j) off += m.rows[j].nch * m.rows[j].ncor;
      for (auto& d : m.data)
        for (size_t k2 = 0; k2 < n; ++k2) { CF v(r.range(-9, 9), 0.5); p.b->GetData(i, d.first)[k2] = v; d.second[off + k2] = v; }
      for (size_t k2 = 0; k2 < n; ++k2) {
        if (m.flags) { bool v = r.chance(0.5); p.b->GetFlags(i)[k2] = v; m.f[off + k2] = v; }
        if (m.weights) { float v = r.below(100); p.b->GetWeights(i)[k2] = v; m.w[off + k2] = v; }
      }
    } else {
      op = "new";
      make(p);
    }
    if (!m.flags) m.f.assign(m.used, std::nullopt);
    if (!m.weights) m.w.assign(m.used, std::nullopt);
    compare(p, op);
  }
}

// metadata comparison
static void t_meta(uint64_t seed) {
  vf::Case k("meta", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  const size_t n = r.below(4);
  std::vector<RowM> A(n);
  double t = r.below(2) * 4e9;
  for (RowM& x : A) {
    x = RowM{t += r.below(3), 2, 1, r.below(5), r.below(5), r.below(3), 1 + r.below(2), r.chance(0.6), {r.real(-9, 9), r.real(-9, 9), r.real(-9, 9)}};
  }
  std::vector<RowM> B = A;
  bool want = true;
  if (n && r.chance(0.8)) {
    RowM& x = B[r.below(n)];
    const double d = r.pick(std::vector<double>{1e-6, -1e-6, 4e-6, -4e-6, 0.5, -0.5});
    const bool big = std::abs(d) > 2e-6;
    switch (r.below(9)) {
      case 0: x.time += d; want = !big; break;
      case 1: x.interval += d; want = !big; break;
      case 2: x.exposure += d; want = !big; break;
      case 3: x.nr++; want = false; break;
      case 4: x.bl++; want = false; break;
      case 5: x.nch++; want = false; break;
      case 6: x.ncor++; want = false; break;
      case 7: x.has_uvw = !x.has_uvw; want = false; break;
      default: x.uvw[r.below(3)] += d; want = !big || !x.has_uvw; break;
    }
  }
  if (r.chance(0.1)) { B.push_back(RowM{t + 1, 2, 1, 0, 0, 1, 1, false, {0, 0, 0}}); want = false; }
  auto fill = [](const std::vector<RowM>& v) {
    auto b = std::make_unique<BdaBuffer>(1000, fields(1));
    for (const RowM& x : v) b->AddRow(x.time, x.interval, x.exposure, x.bl, x.nch, x.ncor, x.nr, nullptr, nullptr, nullptr, x.has_uvw ? x.uvw : nullptr);
    return b;
  };
  auto a = fill(A), b = fill(B);
  if (t > 1e9) for (size_t i = 0; i < n; ++i) if (i < B.size() && A[i].time != B[i].time && std::abs(std::abs(A[i].time - B[i].time) - 2e-6) < 1.5e-6) return;
  vf::check(a->IsMetadataEqual(*b) == want && b->IsMetadataEqual(*a) == want, want ? "equal metadata reported different" : "different metadata reported equal");
}
static void t_time(double x, double y) {
  vf::Case k("time", [&] { return vf::str(x) + " " + vf::str(y); });
  if (tie(x, y)) return;
  const bool eq = near(x, y);
  vf::check(BdaBuffer::TimeIsEqual(x, y) == eq, "TimeIsEqual");
  vf::check(BdaBuffer::TimeIsLess(x, y) == (x < y && !eq), "TimeIsLess");
  vf::check(BdaBuffer::TimeIsLessEqual(x, y) == (x < y || eq), "TimeIsLessEqual");
  vf::check(BdaBuffer::TimeIsGreaterEqual(x, y) == (x > y || eq), "TimeIsGreaterEqual");
}
void vf::search(Rng& r, double secs, bool) {
  for (Timer t(secs); t.left();) {
    t_ops(r.next() >> 16, 5 + r.below(30));
    t_meta(r.next() >> 16);
    double x = r.real(-10, 10);
    t_time(x, x + r.pick(std::vector<double>{0, 1e-6, -1e-6, 3e-6, -3e-6, 1, -1}));
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  if (t == "ops" && a.size() == 2) t_ops(std::stoull(a[0]), std::stoull(a[1]));
  else if (t == "meta" && a.size() == 1) t_meta(std::stoull(a[0]));
  else if (t == "time" && a.size() == 2) t_time(std::stod(a[0]), std::stod(a[1]));
}
