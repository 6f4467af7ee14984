#include "vf.h"
#include <atomic>
#include <iomanip>
#include "common/PrettyUnits.cc"
#include "common/Timer.h"
using namespace dp3::common;
static int64_t g_now;  // nanoseconds
struct Clk {
  typedef std::chrono::nanoseconds duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef std::chrono::time_point<Clk> time_point;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(g_now)); }
};
struct Tick {  // another resolution
  typedef std::chrono::duration<int64_t, std::ratio<1, 50>> duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef std::chrono::time_point<Tick> time_point;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(g_now)); }
};
template <class C>
static std::string text(const BaseTimer<C>& t) { std::ostringstream o; t.print(o); return o.str(); }
template <class C>
static void t_ops(uint64_t seed, int nops, const char* kind) {
  vf::Case k(kind, [&] { return std::to_string(seed) + " " + std::to_string(nops); });
  vf::Rng r(seed);
  const double unit = double(C::period::num) / C::period::den;
  struct M { int64_t dur = 0, start = 0; uint64_t n = 0; bool on = false; };
  std::vector<std::unique_ptr<BaseTimer<C>>> t;
  std::vector<std::string> name;
  std::vector<M> m;
  for (int i = 0; i < 3; ++i) {
    name.push_back(i ? std::string(r.below(30), 'a' + i) : "");
    t.push_back(i == 0 && r.chance(0.5) ? std::make_unique<BaseTimer<C>>() : std::make_unique<BaseTimer<C>>(name[i]));
    m.emplace_back();
  }
  g_now = r.chance(0.1) ? -int64_t(r.below(1000000)) : int64_t(r.below(1ull << 40));
  auto tick = [&] { g_now += r.chance(0.1) ? 0 : int64_t(r.below(r.chance(0.2) ? (1ull << 40) : 5000)); };
  for (int o = 0; o < nops; ++o) {
    int i = r.below(3), j = r.below(3);
    tick();
    switch (r.below(6)) {
      case 0: case 1:
        if (!m[i].on || r.chance(0.1)) { t[i]->start(); m[i].start = g_now; m[i].on = true; }
        break;
      case 2: case 3:
        if (m[i].on) { t[i]->stop(); m[i].dur += g_now - m[i].start; ++m[i].n; m[i].on = false; }
        break;
      case 4: {
        int64_t b = g_now;
        bool thrown = r.chance(0.3);
        try {
          typename BaseTimer<C>::StartStop s(*t[i]);
          tick();
          if (thrown) throw 1;
        } catch (int) {}
        m[i].dur += g_now - b; ++m[i].n; m[i].on = false;
        break;
      }
      default:
        if (r.chance(0.2)) { t[i]->reset(); m[i].dur = 0; m[i].n = 0; }
        else { *t[i] += *t[j]; M c = m[j]; m[i].dur += c.dur; m[i].n += c.n; }
    }
    for (int q = 0; q < 3; ++q) {
      vf::equal(t[q]->getCount(), m[q].n, "count of timer " + std::to_string(q));
      vf::check(vf::close(t[q]->getElapsed() / unit, double(m[q].dur), 1e-14), "elapsed time: got " + vf::str(t[q]->getElapsed()) + ", want " + vf::str(m[q].dur * unit));
      if (m[q].n) vf::check(vf::close(t[q]->getAverage() / unit, double(m[q].dur) / m[q].n, 1e-14), "average: got " + vf::str(t[q]->getAverage()));
    }
    if (std::fabs(double(m[i].dur)) > 1e17) break;
  }
  for (int q = 0; q < 3; ++q) {
    std::ostringstream w;
    if (name[q].empty()) w << "timer: ";
    else w << name[q] << std::string(name[q].size() < 25 ? 25 - name[q].size() : 0, ' ') << ": ";
    if (!m[q].n) w << "not used";
    else {
      double tot = double(m[q].dur) * C::period::num / C::period::den;
      std::string c = std::to_string(m[q].n);
      w << "avg = " << std::string(PrettyTime(tot / m[q].n)) << ", total = " << std::string(PrettyTime(tot)) << ", count = " << std::string(c.size() < 9 ? 9 - c.size() : 0, ' ') << c;
    }
    vf::equal(text(*t[q]), w.str(), "printed timer");
  }
}
template <class T>
static void t_acc(uint64_t seed, const char* kind) {
  vf::Case k(kind, [&] { return std::to_string(seed); });
  vf::Rng r(seed);
  T acc = T(0);
  double want = 0;
  int n = r.below(6);
  for (int i = 0; i < n; ++i) {
    g_now = r.below(1ull << 40);
    double d = 1000.0 * r.below(100000000);
    try {
      ScopedMicroSecondAccumulator<T, Clk> s(acc);
      g_now += int64_t(d);
      if (r.chance(0.3)) throw 1;
    } catch (int) {}
    want += d / 1000;
  }
  vf::check(std::fabs(double(acc) - want) <= n + 1e-9 * want, "accumulated microseconds: got " + vf::str(double(acc)) + ", want " + vf::str(want));
}
void vf::search(Rng& r, double secs, bool thorough) {
  Timer t(secs);
  while (t.left())
    for (int j = 0; j < 50; ++j) {
      t_ops<Clk>(r.next() >> 8, r.below(40), "ns");
      t_ops<Tick>(r.next() >> 8, r.below(40), "tick");
      t_acc<double>(r.next() >> 8, "acc-double");
      t_acc<std::atomic<long>>(r.next() >> 8, "acc-atomic");
      t_acc<long>(r.next() >> 8, "acc-long");
    }
}
void vf::run_case(const std::string& t, const std::vector<std::string>& a) {
  uint64_t s = std::stoull(a[0]);
  if (t == "ns") t_ops<Clk>(s, std::stoi(a[1]), "ns");
  if (t == "tick") t_ops<Tick>(s, std::stoi(a[1]), "tick");
  if (t == "acc-double") t_acc<double>(s, "acc-double");
  if (t == "acc-atomic") t_acc<std::atomic<long>>(s, "acc-atomic");
  if (t == "acc-long") t_acc<long>(s, "acc-long");
}
