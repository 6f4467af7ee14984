#include "vf.h"
#include <sys/stat.h>
#include "common/StringTools.cc"
#include "common/ParameterValue.cc"
#include "common/ParameterRecord.cc"
#include "common/ParameterSet.cc"
#include "common/ParameterSetImpl.cc"
using std::string;
using std::vector;
namespace c = dp3::common;
using c::ParameterSet;
using c::KeyCompare;
static string upper(string s) { for (auto& x : s) if (x >= 'a' && x <= 'z') x -= 32; return s; }
// reference: keys in first-to-last order of their (upper-cased) text
struct Ref {
  bool nocase;
  std::map<string, std::pair<string, string>> m;   // folded key -> spelling, value
  std::set<string> asked;                           // folded
  string fold(const string& k) const { return nocase ? upper(k) : k; }
  void put(const string& k, const string& v) { m[fold(k)] = {k, v}; }
};
static bool prefixed(const Ref& r, const string& k, const string& base) { return r.fold(k.substr(0, base.size())) == r.fold(base) && k.size() >= base.size(); }
static void compare(const ParameterSet& p, const Ref& r, const string& what) {
  vf::equal(size_t(p.size()), r.m.size(), "number of keys " + what);
  auto it = p.begin();
  vector<string> unused, got = p.unusedKeys();
  for (auto& kv : r.m) {
    vf::equal(r.fold(it->first), kv.first, "key " + what);
    vf::equal(it->second.get(), kv.second.second, "value of " + vf::show(kv.first) + " " + what);
    if (!r.asked.count(kv.first)) unused.push_back(kv.first);
    ++it;
  }
  for (auto& k : got) k = r.fold(k);
  std::sort(got.begin(), got.end()); std::sort(unused.begin(), unused.end());
  vf::check(got == unused, "unused keys " + what + ": " + std::to_string(got.size()) + " reported, " + std::to_string(unused.size()) + " never asked");
}
static string ident(vf::Rng& r) {
  static const vector<string> w{"msin", "msout", "Msin", "steps", "a", "A", "ab", "_", "ddecal", "DDEcal", "x1", "aZ", "a_"};
  string s = r.pick(w);
  for (size_t n = r.below(3); n; --n) s += "." + r.pick(w);
  return s;
}
static string blanks(vf::Rng& r) { return r.chance(0.6) ? "" : r.pick(vector<string>{" ", "  ", "\t", " \t "}); }
// value text without leading and trailing blanks
static string value(vf::Rng& r) {
  static const vector<string> w{"1", "-3", "T", "false", "[1,2,3]", "[a..c]", "CS001", "'x=y'", "\"# no comment\"", "a b", "'it''s'", "1.5e3", "{a:1}", "x\\y", "\"a\\\"", "[1..3]", "2*x", "4294967295", "65535", "-1", "''"};
  string s = r.pick(w);
  if (r.chance(0.2)) s += blanks(r) + r.pick(w);
  return s;
}
static string text(vf::Rng& r, const string& prefix, Ref& ref) {
  string t;
  for (size_t n = r.below(6); n; --n) {
    if (r.chance(0.2)) t += blanks(r) + (r.chance(0.5) ? "# comment = '1" : "") + "\n";
    string k = ident(r), v = r.chance(0.1) ? "" : value(r);
    string key = r.chance(0.1) ? "'" + k + "'" : r.chance(0.1) ? "\"" + k + "\"" : k;
    t += blanks(r) + key + blanks(r) + "=" + blanks(r) + v;
    string full = v;
    while (r.chance(0.2)) {
      if (r.chance(0.5)) t += blanks(r) + "\\";
      t += blanks(r) + (r.chance(0.2) ? " # 'comment" : "") + "\n" + blanks(r);
      if (r.chance(0.15)) t += "#x=3\n";
      string e = value(r);
      t += e;
      full += full.empty() || e[0] == '"' || e[0] == '\'' ? e : " " + e;
    }
    t += blanks(r) + (r.chance(0.15) ? "\\" : "") + blanks(r) + (r.chance(0.2) ? "#c=\"" : "") + (n == 1 && r.chance(0.3) ? "" : r.chance(0.1) ? "\r\n" : "\n");
    ref.put(prefix + k, full);
  }
  return t;
}
// one sequence of operations, against the reference
static string dir;
static void t_ops(uint64_t seed) {
  vf::Case cs("ops", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  Ref ref{r.chance(0.4)};
  ParameterSet p(ref.nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
  string log;
  for (size_t n = 1 + r.below(12); n; --n) {
    string k = ident(r), v = value(r);
    string have = ref.m.empty() ? k : std::next(ref.m.begin(), r.below(ref.m.size()))->second.first;
    if (r.chance(0.6)) k = have;
    if (ref.nocase && r.chance(0.3)) for (auto& x : k) x = r.chance(0.5) ? toupper(x) : tolower(x);
    string pre = r.chance(0.5) ? "" : r.pick(vector<string>{"p.", "a", "msin."});
    bool known = ref.m.count(ref.fold(k));
    switch (r.below(12)) {
      case 0: {
        log += " add(" + k + ")";
        bool threw = false;
        try { p.add(k, v); } catch (const std::runtime_error&) { threw = true; }
        vf::equal(threw, known, "add of a known key is rejected:" + log);
        if (!known) ref.put(k, v);
        break;
      }
      case 1: log += " replace(" + k + ")"; p.replace(k, v); if (known) ref.m[ref.fold(k)].second = v; else ref.put(k, v); break;
      case 2: log += " remove(" + k + ")"; p.remove(k); ref.m.erase(ref.fold(k)); break;
      case 3: case 4: case 5: {
        Ref before = ref;
        string t = text(r, pre, ref);
        log += " adopt(" + vf::show(t) + "," + pre + ")";
        if (r.chance(0.15)) { string f = dir + "/in"; std::ofstream(f) << t; p.adoptFile(f, pre); }
        else p.adoptBuffer(t, pre);
        break;
      }
      case 6: {
        vector<string> args;
        for (size_t i = r.below(4); i; --i) {
          string a = ident(r), b = blanks(r) + value(r) + blanks(r);
          if (r.chance(0.2)) { args.push_back(a); continue; }
          string s = a + "=" + b;
          args.push_back(s);
          size_t x = b.find_first_not_of(" \t"), y = b.find_last_not_of(" \t");
          string tv = x == string::npos ? "" : b.substr(x, y - x + 1);
          if (ref.m.count(ref.fold(a))) ref.m[ref.fold(a)].second = tv; else ref.put(a, tv);
        }
        log += " args";
        p.adoptArguments(args);
        break;
      }
      case 7: {
        Ref o{ref.nocase};
        ParameterSet q(ref.nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
        q.adoptBuffer(text(r, "", o));
        log += " collection(" + pre + ")";
        bool self = r.chance(0.3);
        if (self) o = ref;
        if (self) p.adoptCollection(p, pre); else p.adoptCollection(q, pre);
        if (!(self && pre.empty()))
          for (auto& kv : o.m) { string f = pre + kv.second.first; if (ref.m.count(ref.fold(f))) ref.m[ref.fold(f)].second = kv.second.second; else ref.put(f, kv.second.second); }
        break;
      }
      case 8: {
        string base = k.substr(0, r.below(k.size() + 1));
        ParameterSet q = p.makeSubset(base, pre);
        log += " subset(" + base + "," + pre + ")";
        Ref o{ref.nocase};
        for (auto& kv : ref.m)
          if (prefixed(ref, kv.second.first, base)) { o.put(pre + kv.second.first.substr(base.size()), kv.second.second); ref.asked.insert(kv.first); }
        compare(q, o, "in" + log);
        break;
      }
      case 9: {
        string base = k.substr(0, r.below(k.size() + 1));
        if (r.chance(0.7) && base.size() < k.size()) base = k;
        log += " subtract(" + base + ")";
        p.subtractSubset(base);
        for (auto i = ref.m.begin(); i != ref.m.end();) i = prefixed(ref, i->second.first, base) ? ref.m.erase(i) : std::next(i);
        break;
      }
      case 10: {
        log += " write";
        string b;
        p.writeBuffer(b);
        ParameterSet q(ref.nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
        q.adoptBuffer(b);
        Ref o{ref.nocase, ref.m, {}};
        compare(q, o, "after writing and reading" + log);
        if (r.chance(0.1)) {
          string f = dir + "/out";
          p.writeFile(f);
          std::ifstream in(f);
          std::stringstream ss; ss << in.rdbuf();
          vf::equal(ss.str(), b, "file and buffer are the same" + log);
          compare(ParameterSet(f, ref.nocase), o, "after writing and reading a file" + log);
          p.writeFile(f, true);
          std::ifstream in2(f);
          std::stringstream s2; s2 << in2.rdbuf();
          vf::equal(s2.str(), b + b, "appended file" + log);
        }
        break;
      }
      default: {
        log += " get(" + k + ")";
        vf::equal(p.isDefined(k), known, "isDefined" + log);
        bool threw = false;
        string g;
        try { g = p.get(k).get(); } catch (const std::runtime_error&) { threw = true; }
        vf::equal(threw, !known, "get of an unknown key is rejected:" + log);
        if (known) { vf::equal(g, ref.m[ref.fold(k)].second, "value" + log); ref.asked.insert(ref.fold(k)); }
      }
    }
    compare(p, ref, "after" + log.substr(log.size() > 900 ? log.size() - 900 : 0));
  }
}
// typed access: conversion of the value, or the default exactly when the key is absent
template <class T, class G, class D, class V>
static void typed(const char* what, const ParameterSet& p, const string& key, const string& val, bool known, T dflt, G get, D getd, V conv) {
  auto run = [](auto f, bool& bad) { bad = false; try { return f(); } catch (const std::exception&) { bad = true; return T(); } };
  bool b1, b2, b3;
  T a = run([&] { return get(p, key); }, b1), d = run([&] { return getd(p, key, dflt); }, b2), w = run([&] { return conv(c::ParameterValue(val, false)); }, b3);
  string m = string(what) + " of " + (known ? vf::show(val) : string("an absent key"));
  vf::equal(b1, !known || b3, m + " is rejected");
  vf::equal(b2, known && b3, m + " with default is rejected");
  if (!b1) vf::check(a == w, m + " differs from the conversion of the value");
  if (!b2) vf::check(d == (known ? w : dflt), m + " with default gives another value");
}
static void t_get(uint64_t seed) {
  vf::Case cs("get", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  ParameterSet p;
  bool known = r.chance(0.7);
  string key = "step.key", val = r.chance(0.6) ? value(r) : std::to_string(r.chance(0.5) ? r.range(-70000, 70000) : int64_t(r.next()));
  if (r.chance(0.3)) { val = "[" + val; for (size_t n = r.below(3); n; --n) val += "," + value(r); val += "]"; }
  if (known) p.add(key, val);
  p.add("other", "1");
#define ONE(N, T, dv) \
  typed<T>("get" #N, p, key, val, known, dv, [](auto& p, auto& k) { return p.get##N(k); }, [](auto& p, auto& k, auto& d) { return p.get##N(k, d); }, [](const c::ParameterValue& v) { return v.get##N(); });
#define VEC(N, T) \
  for (int e = 0; e < 2; ++e) typed<vector<T>>("get" #N "Vector", p, key, val, known, vector<T>(2), [e](auto& p, auto& k) { return p.get##N##Vector(k, bool(e)); }, [e](auto& p, auto& k, auto& d) { return p.get##N##Vector(k, d, bool(e)); }, [e](const c::ParameterValue& v) { return (e ? v.expand() : v).get##N##Vector(); });
#define BOTH(N, T, dv) ONE(N, T, dv) VEC(N, T)
  BOTH(Bool, bool, r.chance(0.5)) BOTH(Int, int, -2000000000) BOTH(Uint, unsigned, 4000000000u) BOTH(Int16, int16_t, -32000) BOTH(Uint16, uint16_t, 65000)
  BOTH(Int32, int32_t, -2000000000) BOTH(Uint32, uint32_t, 4000000000u) BOTH(Int64, int64_t, -9000000000000000000) BOTH(Uint64, uint64_t, 18000000000000000000ull)
  BOTH(Float, float, 1.25f) BOTH(Double, double, 1e300) BOTH(String, string, string("dflt")) BOTH(Time, time_t, time_t(99))
}
static void t_bad(const string& line, bool bad) {
  vf::Case cs("bad", [&] { return vf::hex(line); });
  ParameterSet p;
  bool threw = false;
  try { p.adoptBuffer(line); } catch (const std::runtime_error&) { threw = true; }
  vf::equal(threw, bad, "rejects " + vf::show(line));
}
static void t_any(const string& s) {       // arbitrary text: returns or throws, never out of bounds
  vf::Case cs("any", [&] { return vf::hex(s); });
  ParameterSet p;
  try { p.adoptBuffer(s); } catch (const std::exception&) { return; }
  for (auto it = p.begin(); it != p.end(); ++it) vf::check(!it->first.empty(), "no empty key is read from " + vf::show(s));
}
static void t_names(uint64_t seed) {
  vf::Case cs("names", [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  string k = ident(r);
  size_t d = k.rfind('.');
  vf::equal(c::keyName(k), d == string::npos ? k : k.substr(d + 1), "keyName of " + k);
  vf::equal(c::moduleName(k), d == string::npos ? "" : k.substr(0, d), "moduleName of " + k);
  string l = k + (r.chance(0.8) ? "=" + value(r) : "");
  size_t e = l.find('=');
  vf::equal(c::keyPart(l), l.substr(0, e), "keyPart of " + l);
  vf::equal(c::valuePart(l), e == string::npos ? l : l.substr(e + 1), "valuePart of " + l);
  ParameterSet p;
  p.add(k, "1");
  size_t d2 = d == string::npos ? string::npos : d ? k.rfind('.', d - 1) : string::npos;
  if (d != string::npos) {
    string mod = k.substr(d2 == string::npos ? 0 : d2 + 1, d - (d2 == string::npos ? 0 : d2 + 1));
    vf::equal(p.locateModule(mod), d2 == string::npos ? "" : k.substr(0, d2 + 1), "locateModule of " + mod + " in " + k);
    vf::equal(p.fullModuleName(mod), k.substr(0, d), "fullModuleName of " + mod + " in " + k);
  }
  vf::equal(p.locateModule("nosuch"), "", "locateModule of an absent module");
  vf::equal(p.fullModuleName("nosuch"), "", "fullModuleName of an absent module");
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  char tmpl[] = "/tmp/vf_p11_XXXXXX";
  dir = mkdtemp(tmpl);
  struct Clean { ~Clean() { unlink((dir + "/in").c_str()); unlink((dir + "/out").c_str()); rmdir(dir.c_str()); } } clean;
  for (string s : {"=3", "''=3", "  = 3", "\"\" =3", "a='x", "a=1\nb=\"", "'a=3"}) t_bad(s, true);
  for (string s : {"", "\n", "#'", "a=", "a=1#'", "a='#'", "a.b = [1,\n 2]", "a=\\", "a=1\\\n\\\n\\"}) t_bad(s, false);
  while (t.left()) {
    for (int i = 0; i < 20; ++i) t_ops(r.next() >> 8);
    t_get(r.next() >> 8);
    t_names(r.next() >> 8);
    string s;
    for (size_t n = r.below(30); n; --n) s += r.pick(string("ab=='\"#\\ \t\n\n.,"));
    t_any(s);
  }
}
void vf::run_case(const string& t, const vector<string>& a) {
  if (t == "get") t_get(std::stoull(a[0]));
  if (t == "names") t_names(std::stoull(a[0]));
  if (t == "bad") t_bad(unhex(a[0]), true);
  if (t == "any") t_any(a.empty() ? "" : unhex(a[0]));
}
