#include "vf.h"
#include <regex>
#include "common/StringTools.cc"
using std::string;
using std::vector;
namespace c = dp3::common;
// A specification text built from parts, with the text each expansion must give.
struct T { string text, mult, range, both; };   // original, multiplications expanded, ranges expanded, both (in that order)
static string join(const vector<string>& v, const string& s = ",") { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? s : "") + v[i]; return r; }
static string pad(long v, size_t w) { string s = std::to_string(v); return s.size() < w ? string(w - s.size(), '0') + s : s; }
static string word(vf::Rng& r, bool empty = true) {
  string s;
  size_t n = r.below(4) + !empty;
  for (size_t i = 0; i < n; ++i) s += r.pick(string("abXY_-/@"));
  return s;
}
static string num(vf::Rng& r, long lo, long hi) {
  string s = std::to_string(r.range(lo, hi));
  return r.chance(0.3) ? string(r.below(3), '0') + s : s;
}
static T range(vf::Rng& r) {
  size_t n = r.chance(0.2) ? 2 : 1;
  vector<string> out{""};
  string text, last;
  bool brace = r.chance(0.25);
  for (size_t i = 0; i < n; ++i) {
    string pre = i ? word(r) + "m" : word(r);   // the m keeps "is the prefix repeated after the dots?" unambiguous
    string a = num(r, 0, 120), b;
    if (n == 2 && r.chance(0.9)) a = num(r, 0, 9);
    long x = std::stol(a), y = std::max(0L, x + r.range(-4, 6));
    if (r.chance(0.03)) { x = 2147483647L - r.below(3); a = std::to_string(x); y = 2147483647L - r.below(3); }
    b = r.chance(0.3) ? pad(y, a.size()) : std::to_string(y);
    bool rep = !brace && i == 0 && !pre.empty() && r.chance(0.4);
    text += pre + (brace ? "{" : "") + a + (r.chance(0.1) && i == 0 && n == 1 ? " " : "") + ".." + (r.chance(0.1) && i == 0 && n == 1 ? " " : "") + (rep ? pre : "") + b + (brace ? "}" : "");
    vector<string> nx;
    for (auto& o : out)
      for (long v = x;; v += x < y ? 1 : -1) { nx.push_back(o + pre + pad(v, a.size())); if (v == y) break; }
    out = nx;
  }
  string suf = word(r);
  text += suf;
  for (auto& o : out) o += suf;
  return {text, text, join(out), join(out)};
}
static T node(vf::Rng& r, int depth);
static T list(vf::Rng& r, int depth, size_t n, const string& sep) {
  T t;
  for (size_t i = 0; i < n; ++i) {
    T e = node(r, depth);
    string s = i ? sep : "", b = r.chance(0.1) && sep == "," ? " " : "";
    t.text += s + b + e.text; t.mult += s + b + e.mult; t.range += s + b + e.range; t.both += s + b + e.both;
  }
  return t;
}
static T wrap(const string& a, T t, const string& b) { return {a + t.text + b, a + t.mult + b, a + t.range + b, a + t.both + b}; }
static string semis(string s) { bool q = false; char d = 0; for (auto& x : s) { if (q) { if (x == d) q = false; } else if (x == '"' || x == '\'') { q = true; d = x; } else if (x == ';') x = ','; } return s; }
static T node(vf::Rng& r, int depth) {
  double p = r.uniform();
  if (p < 0.2 || depth <= 0) { string s = word(r) + (r.chance(0.5) ? num(r, 0, 500) : ""); return {s, s, s, s}; }
  if (p < 0.3) { string q = r.chance(0.5) ? "'" : "\"", s = q + r.pick(vector<string>{"", "1..3", "2*x", "a,b", "]", "(", "x;y", "3*[", "\\"}) + q; return {s, s, s, s}; }
  if (p < 0.6) return range(r);
  if (p < 0.7) return wrap("[", list(r, depth - 1, 1 + r.below(3), ","), "]");
  // multiplication
  long n = r.chance(0.1) ? 0 : r.chance(0.1) ? 10 + r.below(3) : 1 + r.below(4);
  string ns = std::to_string(n), a = r.chance(0.1) ? "0" + ns : ns, st = r.chance(0.1) ? " *" : r.chance(0.1) ? "* " : "*";
  T v;
  string body, mbody;
  if (r.chance(0.5)) {
    bool sq = r.chance(0.4), semi = !sq && r.chance(0.5);
    v = list(r, semi ? 0 : depth - 1, 1 + r.below(3), semi ? ";" : ",");
    v = wrap(sq ? "[" : "(", v, sq ? "]" : ")");
    if (sq) { body = v.mult; mbody = v.both; }
    else { body = v.mult.substr(1, v.mult.size() - 2); mbody = v.both.substr(1, v.both.size() - 2); }
    if (semi) { body = semis(body); mbody = semis(mbody); }
  } else {
    v = r.chance(0.5) ? range(r) : node(r, 0);
    if (v.text.empty()) v = {"x", "x", "x", "x"};
    body = v.mult; mbody = v.both;
  }
  vector<string> m(n, body), b(n, mbody);
  return {a + st + v.text, join(m), a + st + v.range, join(b)};
}
static void same(const char* what, const string& in, const string& got, const string& want) {
  vf::check(got == want, string(what) + " of " + vf::show(in) + " gives " + vf::show(got) + ", want " + vf::show(want));
}
static bool bracketed(const string& o) { size_t a = o.find_first_not_of(" \t\n"), z = o.find_last_not_of(" \t\n"); return a != string::npos && a < z && o[a] == '[' && o[z] == ']'; }
static void t_gen(uint64_t seed) {
  vf::Case k("expand", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  T t = list(r, 3, 1 + r.below(3), ",");
  if (t.text.size() > 3000 || t.both.size() > 200000) return;
  same("expandMultString", t.text, c::expandMultString(t.text), t.mult);
  // blanks between a number and .. may be dropped, so compare what the documentation promises
  same("expandRangeString", t.text, c::expandRangeString(t.text), t.range);
  string b = r.chance(0.2) ? " " : "", e = r.chance(0.2) ? "\t" : "";
  same("expandArrayString", b + "[" + t.text + "]" + e, c::expandArrayString(b + "[" + t.text + "]" + e), b + "[" + t.both + "]" + e);
  for (string o : {t.text + "]", "[" + t.text, "x[" + t.text + "]"})
    if (!bracketed(o)) same("expandArrayString", o, c::expandArrayString(o), o);
}
static void t_any(const string& s) {     // arbitrary text: no crash, ends, and leaves text without .. or * alone
  vf::Case k("any", [&] { return vf::hex(s); });
  bool dots = s.find("..") != string::npos, star = s.find('*') != string::npos;
  try {
    string r = c::expandRangeString(s);
    if (!dots) same("expandRangeString", s, r, s);
  } catch (const std::exception&) {}
  try {
    string r = c::expandMultString(s);
    if (!star) same("expandMultString", s, r, s);
  } catch (const std::exception&) {}
  auto run = [](auto f) { try { return f(); } catch (const std::exception&) { return string("\1rejected"); } };
  string got = run([&] { return c::expandArrayString(s); }), want = bracketed(s) ? run([&] { return c::expandRangeString(c::expandMultString(s)); }) : s;
  same("expandArrayString", s, got, want);
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  auto fix = [&](const string& in, const string& want) {
    vf::Case k("fixed", [&] { return vf::hex(in); });
    same("expandArrayString", in, c::expandArrayString(in), want);
  };
  fix("[ lii001..lii003, lii005 ]", "[ lii001,lii002,lii003, lii005 ]");
  fix("[10*0]", "[0,0,0,0,0,0,0,0,0,0]");
  fix("[3*(0;1;2;3)]", "[0,1,2,3,0,1,2,3,0,1,2,3]");
  fix("[3*(300..303)]", "[300,301,302,303,300,301,302,303,300,301,302,303]");
  fix("[2*(5*0)]", "[0,0,0,0,0,0,0,0,0,0]");
  fix("[2*[1,2]]", "[[1,2],[1,2]]");
  fix("[3*lifs001..003]", "[lifs001,lifs002,lifs003,lifs001,lifs002,lifs003,lifs001,lifs002,lifs003]");
  fix("[9..12]", "[9,10,11,12]");
  fix("[12..9]", "[12,11,10,09]");
  fix("[2147483646..2147483647]", "[2147483646,2147483647]");
  fix("[00..01bcd00..01ef]", "[00bcd00ef,00bcd01ef,01bcd00ef,01bcd01ef]");
  fix("", ""); fix("[", "["); fix("]", "]"); fix("[]", "[]"); fix(" ", " "); fix("1..3", "1..3"); fix("[1..3", "[1..3"); fix("1..3]", "1..3]");
  const vector<string> tok{"[", "]", "(", ")", "'", "\"", ",", ";", "*", "..", ".", "1", "2", "03", "a", " ", "\t", "{", "}"};
  while (t.left())
    for (int j = 0; j < 50; ++j) {
      t_gen(r.next() >> 8);
      string s;
      size_t n = r.below(10);
      for (size_t i = 0; i < n; ++i) s += r.pick(tok);
      t_any(r.chance(0.5) ? s : "[" + s + "]");
    }
}
void vf::run_case(const std::string& t, const vector<string>& a) {
  if (t == "expand") t_gen(std::stoull(a[0]));
  if (t == "any") t_any(a.empty() ? string() : unhex(a[0]));
}
