#include "vf.h"
#include "common/StringTools.cc"
#include "common/ParameterValue.cc"
#include "common/ParameterSetImpl.cc"
#include "common/ParameterSet.cc"
#include "common/ParameterRecord.cc"
using std::string;
using std::vector;
using dp3::common::ParameterValue;
static bool sp(char x) { return x == ' ' || (x >= 9 && x <= 13); }
static string strip(const string& s) {
  size_t a = 0, b = s.size();
  while (a < b && sp(s[a])) ++a;
  while (b > a && sp(s[b - 1])) --b;
  return s.substr(a, b - a);
}
struct Bad {};
// independent reading of a list: text between quotes is opaque, commas count only outside brackets
static vector<string> split(const string& c) {
  vector<string> r;
  if (strip(c).empty()) return r;
  string cur;
  std::map<char, int> open;
  for (size_t i = 0; i < c.size(); ++i) {
    char x = c[i];
    if (x == '"' || x == '\'') {
      size_t e = c.find(x, i + 1);
      if (e == string::npos) throw Bad();
      cur += c.substr(i, e - i + 1);
      i = e;
      continue;
    }
    if (x == ',' && !open['('] && !open['['] && !open['{']) { r.push_back(strip(cur)); cur.clear(); continue; }
    if (x == '(') ++open['('];
    if ((x == '[' || x == '{') && open['(']) throw Bad();
    if (x == '[' || x == '{') ++open[x];
    if (x == ')' && --open['('] < 0) throw Bad();
    if (x == ']' && --open['['] < 0) throw Bad();
    if (x == '}' && --open['{'] < 0) throw Bad();
    cur += x;
  }
  if (open['('] || open['['] || open['{']) throw Bad();
  r.push_back(strip(cur));
  return r;
}
static vector<string> vec(const string& v) {
  if (v.empty()) return {};
  if (v.size() < 2 || v[0] != '[' || v.back() != ']') return {v};
  return split(v.substr(1, v.size() - 2));
}
static string unquote(const string& v) {
  string r;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i] != '"' && v[i] != '\'') { r += v[i]; continue; }
    size_t e = v.find(v[i], i + 1);
    if (e == string::npos) throw Bad();
    r += v.substr(i + 1, e - i - 1);
    i = e;
  }
  return r;
}
static std::map<string, string> rec(const string& v) {
  if (v.size() < 2 || v[0] != '{' || v.back() != '}') throw Bad();
  std::map<string, string> m;
  for (auto& e : split(v.substr(1, v.size() - 2))) {
    size_t s = 0;
    if (!e.empty() && (e[0] == '"' || e[0] == '\'')) { s = e.find(e[0], 1); if (s == string::npos) throw Bad(); ++s; }
    size_t p = e.find(':', s);
    if (p == string::npos) throw Bad();
    string k = unquote(strip(e.substr(0, p)));
    if (m.count(k)) throw Bad();
    m[k] = strip(e.substr(p + 1));
  }
  return m;
}
template <class F> static bool oracle(F f) { try { f(); return true; } catch (const Bad&) { return false; } }
template <class F> static bool runs(F f) { try { f(); return true; } catch (const std::exception&) { return false; } }
static void t_trim(const string& s) {
  vf::Case k("trim", [&] { return vf::hex(s); });
  vf::equal(vf::show(ParameterValue(s).get()), vf::show(strip(s)), "trimmed value");
  vf::equal(vf::show(ParameterValue(s, false).get()), vf::show(s), "untrimmed value");
}
static void t_vector(const string& s) {
  vf::Case k("vector", [&] { return vf::hex(s); });
  vector<string> want;
  const string v = strip(s);
  bool ok = oracle([&] { want = vec(v); });
  vector<ParameterValue> got;
  bool g = runs([&] { got = ParameterValue(s).getVector(); });
  vf::check(g == ok, "getVector of " + vf::show(v) + (g ? " is accepted" : " throws"));
  if (!ok) return;
  vf::equal(got.size(), want.size(), "number of elements of " + vf::show(v));
  for (size_t i = 0; i < got.size(); ++i) vf::equal(vf::show(got[i].get()), vf::show(want[i]), "element " + vf::str(i) + " of " + vf::show(v));
}
static void t_string(const string& s) {
  vf::Case k("string", [&] { return vf::hex(s); });
  string want, got;
  bool ok = oracle([&] { want = unquote(s); }), g = runs([&] { got = ParameterValue(s, false).getString(); });
  vf::check(g == ok, "getString of " + vf::show(s) + (g ? " is accepted" : " throws"));
  if (ok) vf::equal(vf::show(got), vf::show(want), "getString of " + vf::show(s));
}
static void t_record(const string& s) {
  vf::Case k("record", [&] { return vf::hex(s); });
  std::map<string, string> want, got;
  bool ok = oracle([&] { want = rec(strip(s)); }), g = runs([&] {
    auto r = ParameterValue(s).getRecord();
    for (auto& e : r) got[e.first] = e.second.get();
  });
  vf::check(g == ok, "getRecord of " + vf::show(s) + (g ? " is accepted" : " throws"));
  if (!ok) return;
  vf::equal(got.size(), want.size(), "number of fields of " + vf::show(s));
  for (auto& e : want) vf::check(got.count(e.first) && got[e.first] == e.second, "field " + vf::show(e.first) + " of " + vf::show(s) + " is " + vf::show(got[e.first]));
}
template <class T, class V, class F>
static void t_typed(const char* nm, const string& s, V (ParameterValue::*get)() const, F conv) {
  vf::Case k("typed", [&] { return vf::hex(s); });
  vector<T> want;
  V got;
  bool ok = true;
  try { for (auto& e : vec(strip(s))) want.push_back(conv(e)); } catch (const Bad&) { ok = false; } catch (const std::exception&) { ok = false; }
  bool g = runs([&] { got = (ParameterValue(s).*get)(); });
  vf::check(g == ok, string(nm) + " of " + vf::show(s) + (g ? " is accepted" : " throws"));
  if (!ok) return;
  vf::equal(got.size(), want.size(), string(nm) + " length of " + vf::show(s));
  for (size_t i = 0; i < want.size(); ++i) vf::check(T(got[i]) == want[i] || want[i] != want[i], string(nm) + " element " + vf::str(i) + " of " + vf::show(s) + ": got " + vf::str(T(got[i])));
}
template <class T, class G, class F>
static void t_scalar(const char* nm, const string& s, G get, F conv) {
  vf::Case k("scalar", [&] { return vf::hex(s); });
  T want{};
  bool ok = runs([&] { want = conv(strip(s)); });
  __int128 gi = 0, wi = 0;
  double gd = 0;
  ParameterValue v(s);
  bool g = runs([&] { auto r = get(v); gd = double(r); if (std::fabs(gd) < 1e37) gi = __int128(r); });
  if (std::fabs(double(want)) < 1e37)
  wi = __int128(want);
  vf::check(g == ok, string(nm) + " of " + vf::show(s) + (g ? " is accepted" : " throws"));
  if (ok && std::isfinite(double(want)) && std::fabs(double(want)) < 1e37) vf::check(gi == wi && gd == double(want), string(nm) + " of " + vf::show(s) + " gives " + vf::str(gd));
}
static void t_numbers(const string& s) {
  namespace c = dp3::common;
  t_typed<bool>("getBoolVector", s, &ParameterValue::getBoolVector, c::strToBool);
  t_typed<int>("getIntVector", s, &ParameterValue::getIntVector, c::strToInt);
  t_typed<unsigned>("getUintVector", s, &ParameterValue::getUintVector, c::strToUint);
  t_typed<int16_t>("getInt16Vector", s, &ParameterValue::getInt16Vector, c::strToInt16);
  t_typed<uint16_t>("getUint16Vector", s, &ParameterValue::getUint16Vector, c::strToUint16);
  t_typed<int32_t>("getInt32Vector", s, &ParameterValue::getInt32Vector, c::strToInt32);
  t_typed<uint32_t>("getUint32Vector", s, &ParameterValue::getUint32Vector, c::strToUint32);
  t_typed<int64_t>("getInt64Vector", s, &ParameterValue::getInt64Vector, c::strToInt64);
  t_typed<uint64_t>("getUint64Vector", s, &ParameterValue::getUint64Vector, c::strToUint64);
  t_typed<float>("getFloatVector", s, &ParameterValue::getFloatVector, c::strToFloat);
  t_typed<double>("getDoubleVector", s, &ParameterValue::getDoubleVector, c::strToDouble);
  t_typed<string>("getStringVector", s, &ParameterValue::getStringVector, unquote);
#define S(T, N) t_scalar<T>("get" #N, s, [](const ParameterValue& v) { return v.get##N(); }, c::strTo##N);
  S(bool, Bool) S(int, Int) S(unsigned, Uint) S(int16_t, Int16) S(uint16_t, Uint16) S(int32_t, Int32) S(uint32_t, Uint32) S(int64_t, Int64) S(uint64_t, Uint64)
  S(float, Float) S(double, Double)
}
static void t_time(const string& s) {   // only well-formed times: blanks, sign, digits, optional unit
  vf::Case k("time", [&] { return vf::hex(s); });
  size_t i = 0;
  while (i < s.size() && sp(s[i])) ++i;
  size_t b = i;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i;
  size_t d = i;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
  if (i - d > 12) return;
  bool ok = i > d;
  time_t got = 0;
  bool g = runs([&] { got = ParameterValue::StringToTime_t(s); });
  vf::check(g == ok, "time " + vf::show(s.substr(0, 60)) + (g ? " is accepted" : " throws"));
  if (!ok) return;
  long long v = std::stoll(s.substr(b, i - b));
  while (i < s.size() && sp(s[i])) ++i;
  char u = i < s.size() ? s[i] : 's';
  if (u == 'm' || u == 'M') v *= 60;
  else if (u == 'h' || u == 'H') v *= 3600;
  else if (u != 's' && u != 'S') return;
  vf::equal((long long)got, v, "time " + vf::show(s.substr(0, 60)));
}
static void all(const string& s) { t_trim(s); t_vector(s); t_string(s); t_record(s); }
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  const string al = "[](){}\"',a: ";
  for (int n = 0; n <= 3; ++n) {
    size_t N = 1;
    for (int i = 0; i < n; ++i) N *= al.size();
    for (size_t x = 0; x < N; ++x) {
      string s;
      for (size_t i = 0, y = x; i < size_t(n); ++i, y /= al.size()) s += al[y % al.size()];
      all(s); t_vector("[" + s + "]"); t_record("{" + s + "}");
    }
  }
  // brackets in every order, nested in another list
  const string br = "[](){},";
  for (int n = 4; n <= (thorough ? 6 : 5); ++n) {
    size_t N = 1;
    for (int i = 0; i < n; ++i) N *= br.size();
    for (size_t x = 0; x < N; ++x) {
      string s;
      for (size_t i = 0, y = x; i < size_t(n); ++i, y /= br.size()) s += br[y % br.size()];
      t_vector("[" + s + "]");
    }
  }
  for (const char* u : {"", "s", "S", "m", "M", "h", "H", " m", "min", "hours", "sec"})
    for (const char* v : {"0", "1", "12", "-3", " 7", "+4", "86400", "x", ""}) t_time(string(v) + u);
  for (size_t n : {10u, 1000u, 1022u, 1023u, 1024u, 1025u, 3000u, 20000u}) t_time("5" + string(n, 'm'));
  const vector<string> tok{"[", "]", "(", ")", "{", "}", "\"", "'", ",", ",", ":", "a", "b c", " ", "\t", "1", "'x,y'", "\"]\"", "k:v", "[1,2]", "(1;2)", "{a:1}", "''", "'a:b':c"};
  const vector<string> num{"1", "-1", "0", " 7 ", "65535", "65536", "-32768", "32767", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "-2147483649", "18446744073709551615", "9223372036854775807",
                           "0x10", "1.5", "1e3", "x", "", "t", "F", "'q'", "\"a,b\"", "inf", "1e400", "0xFFFFFFFF"};
  while (t.left())
    for (int j = 0; j < 20; ++j) {
      string s;
      size_t n = r.below(r.chance(0.1) ? 40 : 9);
      for (size_t i = 0; i < n; ++i) s += r.chance(0.02) ? string(1, char(r.below(256))) : string(r.pick(tok));
      if (r.chance(0.3)) { s.clear(); for (size_t i = r.below(12); i; --i) s += r.pick(br); }
      if (r.chance(0.4)) s = "[" + s + "]";
      else if (r.chance(0.3)) s = "{" + s + "}";
      if (r.chance(0.2)) s = string(r.below(3), ' ') + s + string(r.below(3), '\n');
      all(s);
      if (r.chance(0.5)) {   // well-formed record
        s = "{";
        size_t m = r.below(5);
        for (size_t i = 0; i < m; ++i) s += string(i ? "," : "") + (r.chance(0.3) ? " " : "") + (r.chance(0.3) ? "'k:," + str(i) + "'" : "k" + str(r.below(9))) + (r.chance(0.3) ? " " : "") + ":" + string(r.pick(num)) + (r.chance(0.2) ? ":z" : "");
        t_record(s + "}");
      }
      s = "[";
      size_t m = r.below(4);
      for (size_t i = 0; i < m; ++i) s += (i ? "," : "") + string(r.pick(num));
      t_numbers(r.chance(0.4) ? string(r.pick(num)) : s + "]");
      if (r.chance(0.3)) t_time(str(r.range(-100000, 100000)) + string(r.pick(vector<string>{"", "s", "m", "h", "H", "M", "S", " h"})));
    }
}
void vf::run_case(const std::string& t, const vector<string>& a) {
  string s = a.empty() ? string() : unhex(a[0]);
  if (t == "trim") t_trim(s);
  if (t == "vector") t_vector(s);
  if (t == "string") t_string(s);
  if (t == "record") t_record(s);
  if (t == "typed" || t == "scalar") t_numbers(s);
  if (t == "time") t_time(s);
  if (t == "split" && std::stoul(a[1]) <= std::stoul(a[2]) && std::stoul(a[2]) <= s.size()) t_vector("[" + s.substr(std::stoul(a[1]), std::stoul(a[2]) - std::stoul(a[1])) + "]");
}
