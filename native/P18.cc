#include "vf.h"
#include <algorithm>
#include "parmdb/Axis.cc"
#include "parmdb/Box.cc"
#include "parmdb/Grid.cc"
#include "parmdb/AxisMapping.cc"
using namespace dp3::parmdb;
typedef std::vector<std::pair<double, double>> Cells;
static bool nr(double a, double b) { return a == b || std::fabs(a - b) <= 1e-11 * std::max(std::fabs(a), std::fabs(b)) || std::fabs(a - b) < 1e-13; }
static std::string sc(const Cells& c) {
  std::ostringstream o; o.precision(17);
  for (auto& p : c) o << "[" << p.first << "," << p.second << ")";
  return o.str();
}
static Cells cells(const Axis& a) {
  Cells c;
  for (size_t i = 0; i < a.size(); ++i) c.emplace_back(a.lower(i), a.upper(i));
  return c;
}
static bool same(const Cells& a, const Cells& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!nr(a[i].first, b[i].first) || !nr(a[i].second, b[i].second)) return false;
  return true;
}
static void want(const Axis& a, const Cells& c, const std::string& what) {
  vf::check(a.size() == c.size() && a.centers().size() == c.size() && a.widths().size() == c.size() && a.lowers().size() == c.size() && a.uppers().size() == c.size(),
            what + ": " + std::to_string(a.size()) + " cells instead of " + std::to_string(c.size()) + ": " + sc(cells(a)) + ", want " + sc(c));
  for (size_t i = 0; i < c.size(); ++i) {
    vf::check(nr(a.lower(i), c[i].first) && nr(a.upper(i), c[i].second), what + ": cell " + std::to_string(i) + " of " + sc(cells(a)) + ", want " + sc(c));
    vf::check(nr(a.center(i), (c[i].first + c[i].second) / 2) && nr(a.width(i), c[i].second - c[i].first), what + ": centre or width of cell " + std::to_string(i));
  }
  vf::check(a.range() == std::make_pair(a.start(), a.end()) && nr(a.start(), c[0].first) && nr(a.end(), c.back().second), what + ": range");
}
static const Cells kDef{{-1e30, 1e30}};
static bool regular(const Cells& c) {
  for (size_t i = 0; i < c.size(); ++i) {
    if (!nr(c[i].second - c[i].first, c[0].second - c[0].first)) return false;
    if (i && !nr(c[i].first, c[i - 1].second)) return false;
  }
  return true;
}
// gap-free or gapped random cells; all values are multiples of 1/8
static Cells random_cells(vf::Rng& r, size_t n, bool gaps, bool equal, double base) {
  Cells c;
  double p = base + r.range(-40, 40) * 0.25, w = r.range(1, 12) * 0.25;
  for (size_t i = 0; i < n; ++i) {
    if (!equal) w = r.range(1, 12) * 0.25;
    if (gaps && i && r.chance(0.4)) p += r.range(1, 8) * 0.25;
    c.emplace_back(p, p + w);
    p += w;
  }
  return c;
}
static Axis::ShPtr make(const Cells& c, int how) {
  std::vector<double> a, b;
  if (how < 2 && regular(c)) {
    double w = c[0].second - c[0].first;
    if (how == 0) return std::make_shared<RegularAxis>(c[0].first, w, c.size());
    return std::make_shared<RegularAxis>(c[0].first, c.back().second, c.size(), true);
  }
  for (auto& p : c) {
    a.push_back(how % 2 ? p.first : (p.first + p.second) / 2);
    b.push_back(how % 2 ? p.second : p.second - p.first);
  }
  return std::make_shared<OrderedAxis>(a, b, how % 2 == 1);
}
static std::pair<size_t, bool> ref_find(const Cells& c, double x, bool right) {
  for (size_t i = 0; i < c.size(); ++i) {
    if (right ? (c[i].first <= x && x < c[i].second) : (c[i].first < x && x <= c[i].second)) return {i, true};
  }
  for (size_t i = 0; i < c.size(); ++i)
    if (right ? x < c[i].first : x <= c[i].first) return {i, false};
  return {c.size(), false};
}
using vf::Rng;
static double pos(Rng& r, const Cells& c) {
  const auto& p = c[r.below(c.size())];
  switch (r.below(6)) {
    case 0: return p.first;
    case 1: return p.second;
    case 2: return (p.first + p.second) / 2;
    case 3: return p.first + 0.125;
    case 4: return c[0].first - 0.125 * r.range(0, 10);
    default: return c[0].first + 0.125 * r.range(-8, int((c.back().second - c[0].first) * 8) + 8);
  }
}
static void t_axis(Rng& r, double base) {
  size_t n = 1 + r.below(9);
  bool gaps = r.chance(0.3);
  Cells c = random_cells(r, n, gaps, r.chance(0.5), base);
  int how = r.below(4);
  std::ostringstream d; d << how << " " << sc(c);
  vf::Case k("axis", [&] { return d.str(); });
  Axis::ShPtr a = make(c, how);
  want(*a, c, "construction");
  gaps = false;
  for (size_t i = 1; i < n; ++i) if (c[i].first != c[i - 1].second) gaps = true;
  vf::check(a->isRegular() == (dynamic_cast<RegularAxis*>(a.get()) != nullptr), "isRegular");
  if (a->isRegular()) vf::check(regular(c), "a regular axis of unequal cells");
  // lookup, any hint
  for (int j = 0; j < 6; ++j) {
    double x = pos(r, c);
    bool right = r.chance(0.5);
    auto e = ref_find(c, x, right);
    size_t hint = r.below(n + 2);
    auto g = a->find(x, right, hint);
    vf::check(g == e, "find(" + vf::str(x) + (right ? ", right" : ", left") + ", hint " + vf::str(hint) + ") is " + vf::str(g.first) + (g.second ? "" : " (not found)") + ", want " + vf::str(e.first) + (e.second ? "" : " (not found)"));
    if (j == 0) {
      auto g0 = a->find(x);
      vf::check(g0 == ref_find(c, x, true), "find without a hint");
      bool threw = false; size_t l = 0;
      try { l = a->locate(x, right, hint); } catch (const std::exception&) { threw = true; }
      vf::check(threw == !e.second && (threw || l == e.first), "locate");
    }
  }
  // clone, comparison
  auto cl = a->clone();
  want(*cl, c, "clone");
  vf::check(*cl == *a && !(*cl != *a) && cl->isRegular() == a->isRegular(), "clone differs");
  Cells c2 = c;
  size_t q = r.below(n);
  if (r.chance(0.5)) c2.back().second += 0.25; else if (q == 0) c2[0].first -= 0.25; else c2[q].first += 0.125, c2[q - 1].second = std::min(c2[q - 1].second, c2[q].first);
  vf::check(!(*make(c2, r.below(4)) == *a), "a different axis compares equal: " + sc(c2));
  vf::check(a->getId() != make(c2, 0)->getId(), "two axes share an id");
  // index subset
  size_t s = r.below(n + 2), e = r.below(n + 2);
  Cells sub;
  for (size_t i = s; i <= e && i < n; ++i) sub.push_back(c[i]);
  want(*a->subset(s, e), sub.empty() ? kDef : sub, "subset of cells " + vf::str(s) + ".." + vf::str(e));
  // compress
  size_t f = 1 + r.below(n + 2);
  Cells cmp;
  for (size_t i = 0; i < n; i += f) cmp.emplace_back(c[i].first, c[std::min(i + f, n) - 1].second);
  if (!a->isRegular() || true) want(*a->compress(f), cmp, "compress by " + vf::str(f));
  if (gaps) return;
  // range subset (no gaps)
  double x = pos(r, c), y = pos(r, c);
  if (y < x) std::swap(x, y);
  if (x < y) {
    Cells rs; size_t first = n;
    for (size_t i = 0; i < n; ++i) if (c[i].second > x && c[i].first < y) { if (rs.empty()) first = i; rs.push_back(c[i]); }
    size_t index = 999;
    auto sx = a->subset(x, y, index);
    want(*sx, rs.empty() ? kDef : rs, "subset [" + vf::str(x) + "," + vf::str(y) + ")");
    if (!rs.empty()) vf::check(index == first, "index of the subset is " + vf::str(index) + ", want " + vf::str(first));
    want(*a->subset(x, y), rs.empty() ? kDef : rs, "subset without index");
  }
}
// cells of a common tiling, so that overlapping parts match
static void t_combine(Rng& r, double base) {
  Cells all = random_cells(r, 2 + r.below(9), false, r.chance(0.5), base);
  size_t n = all.size();
  size_t a0 = r.below(n), a1 = a0 + 1 + r.below(n - a0), b0 = r.below(n), b1 = b0 + 1 + r.below(n - b0);
  Cells ca(all.begin() + a0, all.begin() + a1), cb(all.begin() + b0, all.begin() + b1);
  bool overlap = std::max(a0, b0) < std::min(a1, b1);
  bool spoil = overlap && r.chance(0.3);
  std::string what;
  if (spoil) {  // move one border inside the overlap in b only
    size_t lo = std::max(a0, b0), hi = std::min(a1, b1);
    size_t q = lo + r.below(hi - lo + 1);
    if (q > b0 && q < b1) { cb[q - b0].first += 0.0625; cb[q - b0 - 1].second += 0.0625; }
    else if (q == b0 && q > a0) cb[0].first += 0.0625;
    else if (q == b1 && q < a1) cb.back().second -= 0.0625;
    else spoil = false;
  }
  int h1 = r.below(4), h2 = r.below(4);
  std::ostringstream d; d << h1 << h2 << " " << sc(ca) << " " << sc(cb);
  vf::Case k("combine", [&] { return d.str(); });
  auto A = make(ca, h1), B = make(cb, h2);
  vf::check(A->checkIntervals(*B) == (!spoil), std::string("checkIntervals is ") + (spoil ? "true for different cells" : "false for matching cells"));
  int s1 = -9, e1 = -9, s2 = -9, e2 = -9;
  Axis::ShPtr u;
  try { u = A->combine(*B, s1, e1, s2, e2); } catch (const std::exception& e) {
    vf::check(spoil, std::string("combine refused matching axes: ") + e.what());
    return;
  }
  vf::check(!spoil, "combine accepted axes whose common part differs, giving " + sc(cells(*u)));
  Cells w;
  size_t lo = std::min(a0, b0), hi = std::max(a1, b1);
  if (overlap || a1 == b0 || b1 == a0) w.assign(all.begin() + lo, all.begin() + hi);
  else {
    const Cells &f = a1 < b0 ? ca : cb, &g = a1 < b0 ? cb : ca;
    w = f;
    w.emplace_back(f.back().second, g[0].first);
    w.insert(w.end(), g.begin(), g.end());
  }
  want(*u, w, "union");
  vf::check(u->isRegular() ? regular(w) : true, "union claims to be regular");
  Cells got = cells(*u);
  vf::check(s1 >= 0 && e1 <= int(w.size()) && e1 - s1 == int(ca.size()) && same(Cells(got.begin() + s1, got.begin() + e1), ca), "the first axis is not cells " + vf::str(s1) + ".." + vf::str(e1) + " of " + sc(got));
  vf::check(s2 >= 0 && e2 <= int(w.size()) && e2 - s2 == int(cb.size()) && same(Cells(got.begin() + s2, got.begin() + e2), cb), "the second axis is not cells " + vf::str(s2) + ".." + vf::str(e2) + " of " + sc(got));
}
// unrelated axes: the result is right or refused
static void t_any(Rng& r, double base) {
  Cells ca = random_cells(r, 1 + r.below(5), false, r.chance(0.5), base), cb = random_cells(r, 1 + r.below(5), false, r.chance(0.5), base);
  int h1 = r.below(4), h2 = r.below(4);
  std::ostringstream d; d << h1 << h2 << " " << sc(ca) << " " << sc(cb);
  vf::Case k("combine-any", [&] { return d.str(); });
  auto A = make(ca, h1), B = make(cb, h2);
  Cells oa, ob;
  for (auto& x : ca) if (x.second > cb[0].first && x.first < cb.back().second) oa.push_back(x);
  for (auto& x : cb) if (x.second > ca[0].first && x.first < ca.back().second) ob.push_back(x);
  vf::check(A->checkIntervals(*B) == same(oa, ob), "checkIntervals");
  int s1 = -9, e1 = -9, s2 = -9, e2 = -9;
  Axis::ShPtr u;
  try { u = A->combine(*B, s1, e1, s2, e2); } catch (const std::exception& e) {
    vf::check(!same(oa, ob), std::string("combine refused matching axes: ") + e.what());
    return;
  }
  vf::check(same(oa, ob), "combine accepted axes whose common part differs, giving " + sc(cells(*u)));
  Cells got = cells(*u);
  vf::check(s1 >= 0 && e1 <= int(got.size()) && e1 - s1 == int(ca.size()) && same(Cells(got.begin() + s1, got.begin() + e1), ca), "place of the first axis");
  vf::check(s2 >= 0 && e2 <= int(got.size()) && e2 - s2 == int(cb.size()) && same(Cells(got.begin() + s2, got.begin() + e2), cb), "place of the second axis");
}
struct Rect { double x0, x1, y0, y1; };
static Rect rect(Rng& r, double base) {
  double x = base + r.range(-6, 6) * 0.5, y = r.range(-6, 6) * 0.5;
  return {x, x + r.range(0, 6) * 0.5, y, y + r.range(0, 6) * 0.5};
}
static Box bx(const Rect& r) { return Box(Point(r.x0, r.y0), Point(r.x1, r.y1)); }
static std::string sr(const Rect& r) { return "(" + vf::str(r.x0) + "," + vf::str(r.x1) + ";" + vf::str(r.y0) + "," + vf::str(r.y1) + ")"; }
static bool is(const Box& b, const Rect& r) { return b.lowerX() == r.x0 && b.upperX() == r.x1 && b.lowerY() == r.y0 && b.upperY() == r.y1; }
static void t_box(Rng& r, double base) {
  Rect a = rect(r, base), b = rect(r, base);
  vf::Case k("box", [&] { return sr(a) + " " + sr(b); });
  Box A = bx(a), B = bx(b);
  vf::check(is(A, a) && A.lower() == Point(a.x0, a.y0) && A.upper() == Point(a.x1, a.y1) && A.widthX() == a.x1 - a.x0 && A.widthY() == a.y1 - a.y0, "corners");
  vf::check(Box(a.x0, a.x1, a.y0, a.y1, true) == A, "from start/end");
  vf::check(Box((a.x0 + a.x1) / 2, a.x1 - a.x0, (a.y0 + a.y1) / 2, a.y1 - a.y0) == A, "from center/width");
  std::vector<double> v{a.x0, a.y0, a.x1, a.y1, 7.};
  for (size_t n = 0; n <= 5; ++n) {
    Box V(std::vector<double>(v.begin(), v.begin() + n));
    Rect w{n > 0 ? v[0] : -1e30, n > 2 ? v[2] : 1e30, n > 1 ? v[1] : -1e30, n > 3 ? v[3] : 1e30};
    vf::check(is(V, w), "from a vector of " + vf::str(n));
  }
  bool e = a.x0 == a.x1 || a.y0 == a.y1;
  vf::check(A.empty() == e, "empty");
  vf::check((A == B) == (a.x0 == b.x0 && a.x1 == b.x1 && a.y0 == b.y0 && a.y1 == b.y1) && (A != B) == !(A == B), "==");
  bool in = b.x0 < a.x1 && b.x1 > a.x0 && b.y0 < a.y1 && b.y1 > a.y0;
  vf::check(A.intersects(B) == in, "intersects");
  bool co = b.x0 >= a.x0 && b.x1 <= a.x1 && b.y0 >= a.y0 && b.y1 <= a.y1;
  vf::check(A.contains(B) == co, "contains");
  Box U = A | B, I = A & B;
  Rect u{std::min(a.x0, b.x0), std::max(a.x1, b.x1), std::min(a.y0, b.y0), std::max(a.y1, b.y1)};
  Rect i{std::max(a.x0, b.x0), std::min(a.x1, b.x1), std::max(a.y0, b.y0), std::min(a.y1, b.y1)};
  vf::check(is(U, u) && unite(A, B) == U, "union");
  if (i.x0 < i.x1 && i.y0 < i.y1) vf::check(is(I, i), "intersection");
  else vf::check(I == Box() && I.empty(), "the intersection of disjoint boxes");
  vf::check(intersect(A, B) == I, "intersect");
  vf::check((A < B) == (a.y0 < b.y0 || (a.y0 == b.y0 && a.x0 < b.x0)) && (A > B) == (a.y0 > b.y0 || (a.y0 == b.y0 && a.x0 > b.x0)), "order");
}
template <class T> static void shuffle(Rng& r, std::vector<T>& v) {
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
}
static void t_grid(Rng& r, double base) {
  bool gaps = r.chance(0.2);
  Cells x = random_cells(r, 1 + r.below(6), gaps, r.chance(0.5), base), y = random_cells(r, 1 + r.below(6), gaps, r.chance(0.5), base / 3);
  std::ostringstream d; d << sc(x) << " x " << sc(y);
  vf::Case k("grid", [&] { return d.str(); });
  auto X = make(x, r.below(4)), Y = make(y, r.below(4));
  Grid g(X, Y);
  size_t nx = x.size(), ny = y.size();
  vf::check(!g.isDefault() && g.nx() == nx && g.ny() == ny && g.size() == nx * ny && g.shape() == std::make_pair(nx, ny), "shape");
  std::vector<Box> dom;
  dom.push_back(Box());
  g.toDomains(dom);
  vf::check(dom.size() == 1 + nx * ny && dom[0] == Box(), "toDomains: number of boxes");
  dom.erase(dom.begin());
  unsigned id = 0;
  for (size_t j = 0; j < ny; ++j)
    for (size_t i = 0; i < nx; ++i, ++id) {
      Grid::Location l(i, j);
      vf::check(g.getCellId(l) == id && g.getCellLocation(id) == l, "cell ids");
      Rect w{x[i].first, x[i].second, y[j].first, y[j].second};
      vf::check(nr(dom[id].lowerX(), w.x0) && nr(dom[id].upperX(), w.x1) && nr(dom[id].lowerY(), w.y0) && nr(dom[id].upperY(), w.y1), "toDomains: box " + vf::str(id));
      vf::check(g.getCell(l) == dom[id] && g.getCell(id) == dom[id], "getCell");
      Point c = g.getCellCenter(l);
      vf::check(c == Point(X->center(i), Y->center(j)), "getCellCenter");
      vf::check(g.locate(c) == l && g.locate(c, false) == l, "locate the centre of a cell");
    }
  vf::check(g.getBoundingBox() == Box(Point(X->start(), Y->start()), Point(X->end(), Y->end())), "bounding box");
  Grid::Location s(r.below(nx), r.below(ny)), e(s.first + r.below(nx - s.first), s.second + r.below(ny - s.second));
  vf::check(g.getBoundingBox(s, e) == Box(Point(X->lower(s.first), Y->lower(s.second)), Point(X->upper(e.first), Y->upper(e.second))), "bounding box of a part");
  size_t cnt = 0;
  for (CellIterator it(s, e); !it.atEnd(); ++it, ++cnt) {
    size_t w = e.first - s.first + 1;
    vf::check(*it == Grid::Location(s.first + cnt % w, s.second + cnt / w) && it->first == (*it).first, "CellIterator");
    if (cnt > 100) break;
  }
  vf::check(cnt == (e.first - s.first + 1) * (e.second - s.second + 1), "CellIterator visits " + vf::str(cnt) + " cells");
  Grid p = g.subset(s, e);
  want(*p[0], Cells(x.begin() + s.first, x.begin() + e.first + 1), "subset x");
  want(*p[1], Cells(y.begin() + s.second, y.begin() + e.second + 1), "subset y");
  vf::check(g.checkIntervals(p) && p.checkIntervals(g), "a subset does not match its grid");
  // and back
  bool sorted = r.chance(0.5);
  std::vector<Box> in = dom;
  if (!sorted) shuffle(r, in);
  Grid back(in, !sorted);
  want(*back[0], x, "x axis of the grid made of the boxes");
  want(*back[1], y, "y axis of the grid made of the boxes");
  vf::check(!back.isDefault() && back[0]->isRegular() == regular(x) && back[1]->isRegular() == regular(y), "regularity of the grid made of the boxes");
  // a grid made of parts of it
  size_t bx = nx > 1 ? r.below(nx) : 0, by = ny > 1 ? r.below(ny) : 0;
  std::vector<Grid> parts;
  std::vector<std::pair<size_t, size_t>> xs{{0, bx}}, ys{{0, by}};
  if (bx + 1 < nx) xs.emplace_back(bx + 1, nx - 1);
  if (by + 1 < ny) ys.emplace_back(by + 1, ny - 1);
  for (auto& q : ys) for (auto& o : xs) parts.push_back(g.subset(Grid::Location(o.first, q.first), Grid::Location(o.second, q.second)));
  bool srt = r.chance(0.5);
  if (!srt) shuffle(r, parts);
  Grid whole(parts, !srt);
  want(*whole[0], x, "x axis of the grid made of its parts");
  want(*whole[1], y, "y axis of the grid made of its parts");
  if (!gaps) {
    Rect q{pos(r, x), pos(r, x), pos(r, y), pos(r, y)};
    if (q.x1 < q.x0) std::swap(q.x0, q.x1);
    if (q.y1 < q.y0) std::swap(q.y0, q.y1);
    if (q.x0 < q.x1 && q.y0 < q.y1) {
      Grid::Location ix(77, 77);
      Grid gs = g.subset(::bx(q), ix);
      size_t a, b;
      auto A = X->subset(q.x0, q.x1, a), B = Y->subset(q.y0, q.y1, b);
      vf::check(*gs[0] == *A && *gs[1] == *B && ix == Grid::Location(a, b) && *g.subset(::bx(q))[0] == *A && *g.subset(::bx(q))[1] == *B, "subset of a domain");
    }
  }
  vf::check(Grid().isDefault() && Grid(std::vector<Box>()).isDefault() && Grid(std::vector<Grid>()).isDefault() && Grid().size() == 1, "default grid");
  want(*Grid()[0], kDef, "default axis");
  Grid o(make(y, 3), make(x, 3));
  Box b1 = g.getBoundingBox(), b2 = o.getBoundingBox();
  vf::check((g < o) == (b1 < b2) && (g > o) == (b1 > b2), "order of grids");
}
static void t_map(Rng& r, double base) {
  Cells f = random_cells(r, 1 + r.below(9), r.chance(0.2), r.chance(0.5), base), t = random_cells(r, 1 + r.below(7), false, r.chance(0.5), base);
  std::ostringstream d; d << sc(f) << " -> " << sc(t);
  vf::Case k("mapping", [&] { return d.str(); });
  auto F = make(f, r.below(4)), T = make(t, r.below(4));
  AxisMappingCache cache;
  for (int round = 0; round < 2; ++round) {
    const AxisMapping& m = cache.get(*F, *T);
    vf::check(cache.size() == 1 && m.size() == f.size(), "size of the mapping");
    std::vector<int> runs;
    for (size_t i = 0; i < f.size(); ++i) {
      double c = F->center(i);
      size_t w = std::min(ref_find(t, c, true).first, t.size() - 1);
      vf::check(m[i] == int(w) && *(m.begin() + i) == int(w), "cell " + vf::str(i) + " maps to " + vf::str(m[i]) + ", want " + vf::str(w));
      vf::check(vf::close(m.getScaledCenters()[i], (c - t[w].first) / (t[w].second - t[w].first), 1e-12), "scaled centre");
      if (i && m[i] != m[i - 1]) runs.push_back(i);
    }
    runs.push_back(f.size());
    vf::check(m.getBorders() == runs, "borders");
  }
  Grid src(F, T), dst(T, F);
  for (unsigned id = 0; id < src.size(); ++id) {
    Grid::Location l = src.getCellLocation(id);
    Grid::Location w(std::min(ref_find(t, F->center(l.first), true).first, t.size() - 1), std::min(ref_find(f, T->center(l.second), true).first, f.size() - 1));
    vf::check(GridMapping::findLocation(cache, l, src, dst) == w && GridMapping::findLocation(cache, id, src, dst) == w, "findLocation");
    vf::check(GridMapping::findCellId(cache, l, src, dst) == dst.getCellId(w) && GridMapping::findcellId(cache, id, src, dst) == dst.getCellId(w), "findCellId");
  }
  vf::check(cache.size() == 2, "cached mappings");
}
static void one(uint64_t seed) {
  Rng r(seed);
  double base = r.chance(0.3) ? (r.chance(0.5) ? 4.8e9 : 1.5e8) : 0;
  switch (r.below(6)) {
    case 0: case 1: t_axis(r, base); break;
    case 2: if (r.chance(0.4)) t_any(r, base); else t_combine(r, base); break;
    case 3: t_box(r, base); break;
    case 4: t_grid(r, base); break;
    default: t_map(r, base);
  }
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 200; ++j) one(r.next());
}
void vf::run_case(const std::string& target, const std::vector<std::string>& args) {}
