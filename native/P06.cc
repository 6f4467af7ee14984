#include "vf.h"
#include <charconv>
#include "common/StringTools.cc"
using std::string;
namespace c = dp3::common;
static bool sp(char x) { return x == ' ' || (x >= 9 && x <= 13); }
static string strip(const string& s) {
  size_t a = 0, b = s.size();
  while (a < b && sp(s[a])) ++a;
  while (b > a && sp(s[b - 1])) --b;
  return s.substr(a, b - a);
}
static bool digit(char x, int base, int& d) {
  if (x >= '0' && x <= '9') d = x - '0';
  else if (x >= 'a' && x <= 'f') d = x - 'a' + 10;
  else if (x >= 'A' && x <= 'F') d = x - 'A' + 10;
  else return false;
  return d < base;
}
// independent integer grammar: [+-]digits, or 0x/0X and hex digits
static bool parse_int(const string& str, bool is_unsigned, __int128 lo, __int128 hi, __int128& val) {
  string s = strip(str);
  size_t i = 0;
  bool neg = false, any = false;
  int base = 10;
  if (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; i = 2; }
  else if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (neg && is_unsigned) return false;
  __int128 v = 0;
  for (; i < s.size(); ++i) {
    int d;
    if (!digit(s[i], base, d)) return false;
    any = true;
    v = v * base + d;
    if (v > (__int128(1) << 70)) v = __int128(1) << 70;
  }
  val = neg ? -v : v;
  return any && val >= lo && val <= hi;
}
template <class T>
static void t_int(const char* nm, T (*f)(const string&), const string& s) {
  vf::Case k(nm, [&] { return vf::hex(s); });
  __int128 v;
  bool ok = parse_int(s, !std::numeric_limits<T>::is_signed, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), v);
  for (int e : {0, ERANGE}) {   // an earlier error must not matter
    errno = e;
    bool threw = false;
    T r = 0;
    try { r = f(s); } catch (const std::exception&) { threw = true; }
    if (threw) vf::check(!ok, string(nm) + "(" + vf::show(s) + ") throws for a valid number");
    else {
      vf::check(ok, string(nm) + "(" + vf::show(s) + ") accepts what is not a number in range, giving " + vf::str(r));
      vf::check(__int128(r) == v, string(nm) + "(" + vf::show(s) + ") gives " + vf::str(r));
    }
  }
}
// independent floating point grammar
static int parse_fp(const string& str, double& v) {   // 0 no, 1 yes, 2 inf/nan, 3 hexadecimal
  string s = strip(str);
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  string b = s.substr(i), l;
  for (char x : b) l += char(tolower((unsigned char)x));
  if (l == "inf" || l == "infinity") { v = neg ? -INFINITY : INFINITY; return 2; }
  if (l.substr(0, 3) == "nan") {
    if (l.size() > 3) {
      if (l[3] != '(' || l.back() != ')' || l.size() < 5) return 0;
      for (size_t j = 4; j + 1 < l.size(); ++j) if (!isalnum((unsigned char)l[j]) && l[j] != '_') return 0;
    }
    v = NAN;
    return 2;
  }
  const bool hex = l.size() > 2 && l[0] == '0' && l[1] == 'x';
  size_t j = hex ? 2 : 0;
  bool any = false, dot = false;
  for (; j < l.size(); ++j) {
    int d;
    if (digit(l[j], hex ? 16 : 10, d)) any = true;
    else if (l[j] == '.' && !dot) dot = true;
    else break;
  }
  if (!any) return 0;
  if (j < l.size()) {
    if (l[j] != (hex ? 'p' : 'e')) return 0;
    ++j;
    if (j < l.size() && (l[j] == '+' || l[j] == '-')) ++j;
    if (j == l.size()) return 0;
    for (; j < l.size(); ++j) if (l[j] < '0' || l[j] > '9') return 0;
  }
  if (hex) return 3;
  auto r = std::from_chars(b.data(), b.data() + b.size(), v);
  if (r.ec == std::errc::result_out_of_range) v = std::strtod(b.c_str(), nullptr);
  if (neg) v = -v;
  return 1;
}
template <class T>
static void t_fp(const char* nm, T (*f)(const string&), const string& s) {
  vf::Case k(nm, [&] { return vf::hex(s); });
  double v = 0;
  int ok = parse_fp(s, v);
  for (int e : {0, ERANGE}) {
    errno = e;
    bool threw = false;
    T r = 0;
    try { r = f(s); } catch (const std::exception&) { threw = true; }
    string w = string(nm) + "(" + vf::show(s) + ") ";
    if (ok == 0) vf::check(threw, w + "accepts what is not a number, giving " + vf::str(r));
    else if (ok == 3) vf::check(threw || true, "");
    else if (ok == 2) {
      vf::check(!threw, w + "throws for a valid number");
      vf::check(std::isnan(v) ? std::isnan(r) : double(r) == v, w + "gives " + vf::str(r));
    } else {
      const double a = std::fabs(v), big = std::numeric_limits<T>::max(), tiny = std::numeric_limits<T>::min();
      if (a > big * 1.0000002) vf::check(threw, w + "accepts a number out of range, giving " + vf::str(r));
      else if (a >= tiny * 1.0000002 && a <= big * 0.9999999) {
        vf::check(!threw, w + "throws for a valid number");
        if (sizeof(T) == 8) vf::check(double(r) == v, w + "gives " + vf::str(r));
        else vf::check(std::fabs(double(r) - v) <= 6.0e-8 * a, w + "gives " + vf::str(r));
      } else if (a < tiny * 1.0000002 && !threw) vf::check(std::fabs(double(r) - v) <= tiny * 1e-6, w + "gives " + vf::str(r));
    }
  }
}
static void t_bool(const string& s) {
  vf::Case k("strToBool", [&] { return vf::hex(s); });
  int want = s.empty() ? -1 : string("tT1yY").find(s[0]) != string::npos ? 1 : string("fF0nN").find(s[0]) != string::npos ? 0 : -1;
  int got;
  try { got = c::strToBool(s); } catch (const std::exception&) { got = -1; }
  vf::equal(got, want, "strToBool(" + vf::show(s) + ") (-1: exception)");
}
static void one(const string& t, const string& s) {
  bool a = t.empty();
#define I(n) if (a || t == #n) t_int(#n, c::n, s);
  I(strToLong) I(strToInt) I(strToInt32) I(strToInt16) I(strToInt64) I(strToUlong) I(strToUint) I(strToUint32) I(strToUint16) I(strToUint64)
  if (a || t == "strToFloat") t_fp("strToFloat", c::strToFloat, s);
  if (a || t == "strToDouble") t_fp("strToDouble", c::strToDouble, s);
  if (a || t == "strToBool") t_bool(s);
}
static string dec(__int128 v) {
  bool n = v < 0;
  if (n) v = -v;
  string s;
  do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v);
  return n ? "-" + s : s;
}
static string hexs(__int128 v) {
  string s;
  do { s.insert(s.begin(), "0123456789aBcDeF"[int(v % 16)]); v /= 16; } while (v);
  return s;
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  const string al = " 019+-xXaF.e";
  for (int n = 0; n <= 3; ++n) {
    size_t N = 1;
    for (int i = 0; i < n; ++i) N *= al.size();
    for (size_t x = 0; x < N; ++x) {
      string s;
      for (size_t i = 0, y = x; i < size_t(n); ++i, y /= al.size()) s += al[y % al.size()];
      one("", s);
    }
  }
  std::vector<string> b;
  for (int p : {0, 3, 8, 15, 16, 31, 32, 53, 63, 64, 66})
    for (int d = -2; d <= 2; ++d)
      for (int sg : {1, -1}) {
        __int128 v = ((__int128(1) << p) + d) * sg;
        b.push_back(dec(v));
        if (v >= 0) { b.push_back("0x" + hexs(v)); b.push_back("0X" + hexs(v)); b.push_back("+" + dec(v)); b.push_back("000" + dec(v)); b.push_back("-0x" + hexs(v)); b.push_back("+0x" + hexs(v)); }
      }
  for (const char* x : {"inf", "-INF", "Infinity", "nan", "NaN", "nan(a1)", "nan(", "infinit", "1e400", "-1e400", "1e39", "3.4028234e38", "3.5e38", "1e-400", "1e-50", "1.5e", "1.5e+", ".5", "5.", ".", "+.", "1e5x", "1.2.3", "0x1p3", "1,2",
                        "1e308", "2e308", "1.17549435e-38", "true", "false", "yes", "no", "T", "F", "Y", "N", "2", "\xe9", "1\xa0", "maybe"}) b.push_back(x);
  const char* pre[] = {"", " ", "\t", "\n\v\f\r ", "x", "."};
  const char* suf[] = {"", " ", "\t ", "\r\n", "x", " 1", ".", "e", ".0", "\x01", "L", "u"};
  for (auto& s : b)
    for (auto p : pre) for (auto q : suf) if (!*p || !*q || (*p == ' ' && *q == ' ') || thorough) one("", p + s + q);
  for (auto& s : b) { one("", s + string(1, '\0')); one("", string(1, '\0') + s); one("", s + string(1, '\0') + s); }
  const string al2 = "0123456789abcdefxX+-. \t\nEenip";
  while (t.left())
    for (int j = 0; j < 200; ++j) {
      string s;
      size_t n = r.below(r.chance(0.1) ? 40 : 9);
      for (size_t i = 0; i < n; ++i) s += r.chance(0.02) ? char(r.below(256)) : r.pick(al2);
      if (r.chance(0.4)) {
        s = r.chance(0.5) ? dec(__int128(r.next() >> r.below(64)) * (r.chance(0.3) ? -1 : 1)) : vf::str(r.real(-1, 1) * std::pow(10, r.real(-330, 310)));
        if (r.chance(0.3)) s.insert(r.below(s.size() + 1), 1, r.pick(al2));
        if (r.chance(0.3)) s = string(r.below(4), ' ') + s + string(r.below(4), '\t');
      }
      one("", s);
    }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) { one(t, a.empty() ? string() : unhex(a[0])); }
