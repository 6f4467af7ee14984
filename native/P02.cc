#include "vf.h"
#include "common/Fields.cc"
using dp3::common::Fields;
static Fields mk(int m) {
  Fields r;
  if (m & 1) r |= Fields(Fields::Single::kData);
  if (m & 2) r |= Fields(Fields::Single::kFlags);
  if (m & 4) r |= Fields(Fields::Single::kWeights);
  if (m & 8) r |= Fields(Fields::Single::kUvw);
  return r;
}
static int mask(const Fields& f) { return f.Data() | f.Flags() << 1 | f.Weights() << 2 | f.Uvw() << 3; }
static void t_or(int a, int b) {
  vf::Case k("or", [&] { return vf::str(a) + " " + vf::str(b); });
  const Fields x = mk(a), y = mk(b);
  vf::equal(mask(x), a, "getters");
  vf::equal(mask(x | y), a | b, "union");
  vf::equal(mask(x), a, "left operand after union");
  vf::equal(mask(y), b, "right operand after union");
  vf::equal(x == y, a == b, "==");
  vf::equal(x != y, a != b, "!=");
  Fields z = x;
  z |= y;
  vf::equal(mask(z), a | b, "|=");
}
static void t_update(int a, int r, int p) {
  vf::Case k("update", [&] { return vf::str(a) + " " + vf::str(r) + " " + vf::str(p); });
  Fields x = mk(a);
  const Fields rr = mk(r), pp = mk(p);
  Fields& ret = x.UpdateRequirements(rr, pp);
  vf::check(&ret == &x, "returns the updated object");
  vf::equal(mask(x), r | (a & ~p), "updated requirements");
  vf::check(mask(rr) == r && mask(pp) == p, "arguments unchanged");
}
static void t_print(int a) {
  vf::Case k("print", [&] { return vf::str(a); });
  std::ostringstream o;
  o << mk(a);
  std::string w;
  const char* n[4] = {"data", "flags", "weights", "uvw"};
  for (int i = 0; i < 4; ++i)
    if (a >> i & 1) w += (w.empty() ? "" : ", ") + std::string(n[i]);
  vf::equal(o.str(), "[" + w + "]", "printed form");
}
void vf::search(Rng& r, double secs, bool) {
  Timer t(secs);
  for (int a = 0; a < 16; ++a) {
    t_print(a);
    for (int b = 0; b < 16; ++b) {
      t_or(a, b);
      for (int c = 0; c < 16; ++c) t_update(a, b, c);
    }
  }
  while (t.left() && vf::count() < 200000) {
    int n = r.range(1, 12);
    std::vector<int> rq(n), pv(n);
    for (int i = 0; i < n; ++i) { rq[i] = r.below(16); pv[i] = r.below(16); }
    vf::Case k("chain", [&] { std::string s; for (int i = 0; i < n; ++i) s += vf::str(rq[i]) + " " + vf::str(pv[i]) + " "; return s; });
    Fields x;
    for (int i = n; i-- > 0;) x.UpdateRequirements(mk(rq[i]), mk(pv[i]));
    int w = 0;
    for (int f = 0; f < 4; ++f)
      for (int i = 0; i < n; ++i) {
        if (rq[i] >> f & 1) { w |= 1 << f; break; }
        if (pv[i] >> f & 1) break;
      }
    vf::equal(mask(x), w, "fields the chain requires of its input");
  }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  if (t == "or") t_or(stoi(a[0]), stoi(a[1]));
  if (t == "update") t_update(stoi(a[0]), stoi(a[1]), stoi(a[2]));
}
