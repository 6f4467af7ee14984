#include "vf.h"
#include <cassert>
#include <regex>
#include "common/StringTools.cc"
#include "common/ParameterValue.cc"
#include "common/ParameterRecord.cc"
#include "common/ParameterSet.cc"
#include "common/ParameterSetImpl.cc"
#include "common/ValuePerStationParsing.h"
using std::string;
using std::vector;
namespace c = dp3::common;
static bool in(const string& d, char x) { for (char y : d) if (x == y) return true; return false; }
static void t_tokenize(const string& s, const string& d) {
  vf::Case k("tokenize", [&] { return vf::hex(s) + " " + vf::hex(d); });
  vector<string> want;
  bool open = false;
  for (char x : s) {
    if (in(d, x)) { open = false; continue; }
    if (!open) want.emplace_back();
    open = true;
    want.back() += x;
  }
  auto got = c::stringtools::tokenize(s, d);
  vf::check(got == want, "tokenize(" + vf::show(s) + ", " + vf::show(d) + ") gives " + std::to_string(got.size()) + " tokens, want " + std::to_string(want.size()) +
            (got.size() == want.size() && !want.empty() ? ", or other texts" : ""));
}
static int lower(char x) { return x >= 'A' && x <= 'Z' ? x + 32 : (unsigned char)x; }
static void t_compare(const string& a, const string& b) {
  vf::Case k("compare", [&] { return vf::hex(a) + " " + vf::hex(b); });
  // ASCII: case-insensitive order is the order of the upper-case texts
  auto up = [](string s) { for (auto& x : s) if (x >= 'a' && x <= 'z') x -= 32; return s; };
  using c::stringtools::Compare;
  vf::equal(Compare(Compare::NORMAL)(a, b), a < b, "Compare::NORMAL " + vf::show(a) + " " + vf::show(b));
  vf::equal(Compare(Compare::NOCASE)(a, b), up(a) < up(b), "Compare::NOCASE " + vf::show(a) + " " + vf::show(b));
}
static bool wild(const char* p, const char* s) {
  if (!*p) return !*s;
  if (*p == '*') return wild(p + 1, s) || (*s && wild(p, s + 1));
  return *s && (*p == '?' || *p == *s) && wild(p + 1, s + 1);
}
static void t_pattern(const string& p, const string& s) {
  vf::Case k("pattern", [&] { return vf::hex(p) + " " + vf::hex(s); });
  vf::equal(std::regex_match(s, std::regex(c::PatternToRegex(p))), wild(p.c_str(), s.c_str()), "pattern " + vf::show(p) + " matches " + vf::show(s));
}
static void t_regex(const string& p) {   // any text: the three replacements, in one pass
  vf::Case k("regex", [&] { return vf::hex(p); });
  string w;
  for (char x : p) w += x == '.' ? string("\\.") : x == '*' ? string(".*") : x == '?' ? string(".") : string(1, x);
  vf::equal(c::PatternToRegex(p), w, "PatternToRegex(" + vf::show(p) + ")");
}
static string text(vf::Rng& r, const string& alpha, size_t n) { string s; for (size_t i = r.below(n + 1); i; --i) s += r.pick(alpha); return s; }
template <class T>
static void t_stations(uint64_t seed) {
  vf::Case k(sizeof(T) == 8 && std::is_floating_point<T>::value ? "stations_d" : "stations_i", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  vector<string> names;
  for (size_t i = r.below(6); i; --i) names.push_back(text(r, "CRS_01.", 4));
  vector<T> got, want;
  for (size_t i = 0; i < names.size(); ++i) got.push_back(T(1000 + i));
  want = got;
  vector<string> list;
  string all;
  size_t bad = string::npos;
  for (size_t n = r.below(4); n; --n) {
    T val = std::is_floating_point<T>::value ? T(r.range(-40, 40)) / 4 : T(r.below(1000));
    vector<string> pats;
    bool br = r.chance(0.5);
    for (size_t j = br ? r.below(4) : 1; j; --j) {
      string p = names.empty() || r.chance(0.5) ? text(r, "CRS_01.*?*", 4) : r.pick(names);
      if (r.chance(0.3) && !p.empty()) p[r.below(p.size())] = r.pick(string("*?"));
      if (p.empty()) p = "*";
      if (r.chance(0.3)) p = r.pick(string("!^")) + p;
      pats.push_back(p);
    }
    string item = br ? "[" : "";
    for (size_t j = 0; j < pats.size(); ++j) item += (j ? r.chance(0.5) ? ", " : "," : "") + pats[j];
    item += br ? "]" : "";
    if (r.chance(0.05)) { bad = list.size(); }
    else item += ":" + vf::str(val);
    list.push_back(item);
    all += " " + vf::show(item);
    if (bad != string::npos) break;
    for (size_t i = 0; i < names.size(); ++i) {
      bool sel = false;
      for (auto& p : pats)
        if (p.size() > 1 && (p[0] == '!' || p[0] == '^')) { if (wild(p.c_str() + 1, names[i].c_str())) sel = false; }
        else if (wild(p.c_str(), names[i].c_str())) sel = true;
      if (sel) want[i] = val;
    }
  }
  bool threw = false;
  try { c::ParseValuePerStation<T>(got, list, names); } catch (const std::runtime_error&) { threw = true; }
  vf::equal(threw, bad != string::npos, "rejects items without colon:" + all);
  for (size_t i = 0; i < names.size(); ++i)
    vf::equal(got[i], want[i], "value of station " + std::to_string(i) + " " + vf::show(names[i]) + " for" + all);
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  for (string s : {"", "a", " aa\t bb  ", "foo", "!!foo!?bar??"}) for (string d : {"", " ", " \t", "!?", "a"}) t_tokenize(s, d);
  string any;
  for (int i = 1; i < 256; ++i) any += char(i);
  for (char x : any) t_regex(string(1, x));
  while (t.left()) {
    for (int i = 0; i < 100; ++i) {
      t_tokenize(text(r, "ab, ;\t", 12), text(r, ", ;\t", 3));
      t_compare(text(r, "abABz_[", 4), text(r, "abABz_[", 4));
    }
    t_tokenize(text(r, any, 40), text(r, any, 5));
    t_regex(text(r, r.chance(0.5) ? any : "a.*?\\[", 12));
    for (int i = 0; i < 3; ++i) t_pattern(text(r, "ab.*?*?", 6), text(r, "ab.-", 6));
    t_stations<size_t>(r.next() >> 8);
    t_stations<double>(r.next() >> 8);
  }
}
void vf::run_case(const string& t, const vector<string>& a) {
  if (t == "tokenize") t_tokenize(unhex(a[0]), unhex(a[1]));
  if (t == "compare") t_compare(unhex(a[0]), unhex(a[1]));
  if (t == "pattern") t_pattern(unhex(a[0]), unhex(a[1]));
  if (t == "regex") t_regex(unhex(a[0]));
  if (t == "stations_i") t_stations<size_t>(std::stoull(a[0]));
  if (t == "stations_d") t_stations<double>(std::stoull(a[0]));
}
