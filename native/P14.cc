#include "vf.h"
#include "units/tables.cc"
static const char* CT[17] = {"scalar", "scalaramplitude", "scalarphase", "diagonal", "diagonalamplitude", "diagonalphase", "fulljones", "tec", "tec+delay", "tec+phase",
      "tec+phase+delay", "tecscreen", "rotation+diagonal", "rotation", "faradayrotation", "leakage", "leakageamplitude"};
static const int NPOL[17] = {1, 1, 1, 2, 2, 2, 4, 1, 1, 1, 1, 1, 4, 4, 4, 4, 4};
static std::map<string, int> names() {
  std::map<string, int> m;
  for (int i = 0; i < 17; ++i) m[CT[i]] = i;
  m["complexgain"] = 3; m["phaseonly"] = 5; m["amplitudeonly"] = 4; m["scalarcomplexgain"] = 0; m["scalarcomplex"] = 0; m["tecandphase"] = 9;
  return m;
}
template <class F> static string tryd(F f) { try { return vf::str(f()); } catch (const std::runtime_error&) { return "rejected"; } }
static void t_cal(const string& s) {
  vf::Case k("caltype", [&] { return vf::hex(s); });
  static const auto m = names();
  auto it = m.find(s);
  vf::equal(tryd([&] { return drv_caltype(s); }), it == m.end() ? string("rejected") : vf::str(it->second), "mode denoted by " + vf::show(s));
}
static void t_rt(int i) {
  vf::Case k("caltype_rt", [&] { return vf::str(i); });
  vf::equal(tryd([&] { return drv_caltype_rt(i); }), vf::str(i), "mode read back from its printed name");
  vf::equal(drv_npol(i), size_t(NPOL[i]), "polarizations");
}
static void t_rcu(int n) {
  vf::Case k("rcu", [&] { return vf::str(n); });
  static const char* nm[8] = {"unused", "LBA_OUTER 10-90 MHz", "LBA_OUTER 30-90 MHz", "LBA_INNER 10-90 MHz", "LBA_INNER 30-90 MHz", "HBA 110-190 MHz", "HBA 170-230 MHz", "HBA 210-270 MHz"};
  static const double bw[8] = {0, 195312.5, 195312.5, 195312.5, 195312.5, 195312.5, 156250.0, 195312.5}, cf[8] = {0, 50, 60, 50, 60, 150, 200, 240}, of[8] = {0, 0, 0, 0, 0, 100e6, 160e6, 200e6};
  bool ok = n >= 0 && n <= 7;
  const string no = "rejected";
  vf::equal(tryd([&] { return drv_rcu_from(n); }), ok ? vf::str(n) : no, "FromNumber");
  vf::equal(tryd([&] { string s; drv_rcu_name(s, n); return s; }), ok ? nm[n] : no, "ToString");
  vf::equal(tryd([&] { string s; drv_rcu_type(s, n); return s; }), ok ? (n == 0 ? "?" : n <= 4 ? "LBA" : "HBA") : no, "AntennaType");
  vf::equal(tryd([&] { return drv_rcu_bw(n); }), ok && n ? vf::str(bw[n]) : no, "Bandwidth");
  vf::equal(tryd([&] { return drv_rcu_freq(n); }), ok && n ? vf::str(cf[n]) : no, "CentralFrequency");
  vf::equal(tryd([&] { return drv_rcu_off(n); }), ok && n ? vf::str(of[n]) : no, "FrequencyOffset");
  if (ok) for (int j = 0; j < 8; ++j) vf::equal(RcuMode::FromNumber(n) == RcuMode::FromNumber(j).mode, j == n, "operator==");
}
static void t_lls(const string& s) {
  vf::Case k("lls", [&] { return vf::hex(s); });
  string l;
  for (char c : s) l += (c >= 'A' && c <= 'Z') ? char(c + 32) : c;
  string w = l == "svd" ? "0" : l == "qr" ? "1" : l == "normalequations" ? "2" : "rejected";
  vf::equal(tryd([&] { return drv_lls(s); }), w, "solver denoted by " + vf::show(s));
}
static void edits(const string& n, bool cal) {
  auto t = [&](const string& s) { cal ? t_cal(s) : t_lls(s); };
  t(n);
  for (size_t i = 0; i <= n.size(); ++i)
    for (int c = 0; c < 256; ++c) {
      string s = n; s.insert(s.begin() + i, char(c)); t(s);
      if (i < n.size()) { s = n; s[i] = char(c); t(s); }
    }
  for (size_t i = 0; i < n.size(); ++i) { string s = n; s.erase(i, 1); t(s); t(n.substr(0, i)); t(n.substr(i)); s = n; s[i] = toupper(s[i]); t(s); }
}
static void t_make(int i) {
  vf::Case k("make", [&] { return vf::str(i); });
  LLSSolverType ty = i == 0 ? LLSSolverType::SVD : i == 1 ? LLSSolverType::QR : LLSSolverType::NORMAL_EQUATIONS;
  auto p = LLSSolver::Make(ty, 3, 2, 1);
  vf::check(p != nullptr, "a solver is made");
  vf::check(i == 0 ? dynamic_cast<dp3::ddecal::SVDSolver*>(p.get()) != nullptr : i == 1 ? dynamic_cast<dp3::ddecal::QRSolver*>(p.get()) != nullptr : dynamic_cast<dp3::ddecal::NormalEquationsSolver*>(p.get()) != nullptr, "solver of the requested type");
}
void vf::search(Rng& r, double secs, bool) {
  Timer t(secs);
  for (int i = 0; i < 17; ++i) t_rt(i);
  for (int i = 0; i < 3; ++i) t_make(i);
  for (int n = -1000; n <= 1000; ++n) t_rcu(n);
  for (int n : {INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1, 256, 65536, -65536, 1 << 30}) t_rcu(n);
  t_cal(""); t_lls("");
  for (auto& k : names()) edits(k.first, true);
  for (auto k : {"svd", "qr", "normalequations"}) edits(k, false);
  auto m = names();
  std::vector<string> v;
  for (auto& k : m) v.push_back(k.first);
  for (auto& a : v) for (auto& b : v) { t_cal(a + b); t_cal(a + "+" + b); }
  while (t.left()) {
    string s = r.pick(v);
    for (auto& c : s) if (r.chance(0.1)) c = r.chance(0.5) ? toupper(c) : char(r.below(256));
    t_cal(s); t_lls(s);
    string q = r.pick(std::vector<string>{"svd", "qr", "normalequations"});
    for (auto& c : q) if (r.chance(0.5)) c = toupper(c);
    t_lls(q);
    t_rcu(int(r.next()));
  }
}
void vf::run_case(const string& t, const std::vector<string>& a) {
  if (t == "caltype") t_cal(unhex(a[0]));
  if (t == "caltype_rt" || t == "npol") t_rt(stoi(a[0]));
  if (t == "rcu") t_rcu(stoi(a[0]));
  if (t == "lls") t_lls(unhex(a[0]));
}
