#include "vf.h"
#include "common/StringTools.cc"
using std::string;
namespace c = dp3::common;
static bool sp(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }

static void t_lskip(const string& s, unsigned st, unsigned end) {
  vf::Case k("lskipws", [&] { return vf::hex(s) + " " + vf::str(st) + " " + vf::str(end); });
  unsigned w = st;
  while (w < end && sp(s[w])) ++w;
  vf::equal(c::lskipws(s, st, end), w, "lskipws");
}
static void t_rskip(const string& s, unsigned st, unsigned end) {
  vf::Case k("rskipws", [&] { return vf::hex(s) + " " + vf::str(st) + " " + vf::str(end); });
  unsigned w = end;
  while (w > st && sp(s[w - 1])) --w;
  vf::equal(c::rskipws(s, st, end), w, "rskipws");
}
static long quoted(const string& s, size_t st) {
  for (size_t i = st + 1; i < s.size(); ++i)
    if (s[i] == s[st]) return i + 1;
  return -1;
}
static void t_quoted(const string& s, unsigned st) {
  vf::Case k("skipQuoted", [&] { return vf::hex(s) + " " + vf::str(st); });
  long w = quoted(s, st), g;
  try { g = c::skipQuoted(s, st); } catch (const std::runtime_error&) { g = -1; }
  vf::equal(g, w, "skipQuoted");
}
static void t_bal(const string& s, unsigned st, unsigned end, char ec) {
  vf::Case k("skipBalanced", [&] { return vf::hex(s) + " " + vf::str(st) + " " + vf::str(end) + " " + vf::str(int(ec)); });
  long w = -1, g;
  long n = 1;
  for (size_t p = st + 1; p < end;) {
    char ch = s[p];
    if (ch == ec) { ++p; if (--n == 0) { w = p; break; } }
    else if (ch == s[st]) { ++p; ++n; }
    else if (ch == '"' || ch == '\'') { long q = quoted(s, p); if (q < 0) break; p = q; }
    else ++p;
  }
  try { g = c::skipBalanced(s, st, end, ec); } catch (const std::runtime_error&) { g = -1; }
  vf::equal(g, w, "skipBalanced");
}
static void all(const string& s, bool full) {
  unsigned n = s.size();
  for (unsigned e = 0; e <= n; ++e)
    for (unsigned st = 0; st <= n; ++st) { if (!full && st > 3) break; t_lskip(s, st, e); t_rskip(s, st, e); }
  for (unsigned st = 0; st < n; ++st) {
    t_quoted(s, st);
    for (unsigned e = full ? 0 : n; e <= n; ++e) { t_bal(s, st, e, ']'); t_bal(s, st, e, s[st]); }
  }
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  const string al1 = " \n[]'\"", al2 = " \t\v\f\r\nab[](){}\"'\\,;\x80\xff\x1f\x21";
  int maxlen = thorough ? 6 : 4;
  for (int len = 0; len <= maxlen; ++len) {
    string s(len, al1[0]);
    std::vector<int> d(len, 0);
    while (true) {
      for (int i = 0; i < len; ++i) s[i] = al1[d[i]];
      all(s, true);
      int i = 0;
      while (i < len && ++d[i] == int(al1.size())) d[i++] = 0;
      if (i == len) break;
    }
  }
  // every single character classification
  for (int ch = 1; ch < 256; ++ch) { string s(1, char(ch)); all(s + s, true); all("a" + s + "b", true); all("[" + s + "]" + s + "]", true); }
  while (t.left()) {
    string s;
    int n = r.chance(0.02) ? r.range(200, 3000) : r.range(0, 24);
    const string& al = r.chance(0.5) ? al1 : al2;
    for (int i = 0; i < n; ++i) s += r.pick(al);
    if (n > 60) {
      t_lskip(string(n, ' ') + "x", r.below(3), n + 1); t_rskip("x" + string(n, '\t'), 0, n + 1);
      t_bal("[" + string(n, '[') + string(n, ']') + "]", 0, 2 * n + 2, ']');
      t_bal("[" + s, 0, n + 1, ']');
    } else all(s, n < 12);
  }
}
void vf::run_case(const string& t, const std::vector<string>& a) {
  auto u = [&](int i) { return unsigned(std::stoul(a[i])); };
  const string s = unhex(a[0]);
  // a counterexample outside the precondition is not a failing input
  if (t == "lskipws") { if (u(2) <= s.size()) t_lskip(s, u(1), u(2)); }
  else if (t == "rskipws") { if (u(2) <= s.size()) t_rskip(s, u(1), u(2)); }
  else if (t == "skipQuoted") { if (u(1) < s.size()) t_quoted(s, u(1)); }
  else if (t == "skipBalanced") { if (u(1) < s.size() && u(2) <= s.size()) t_bal(s, u(1), u(2), char(std::stoi(a[3]))); }
}
