// Runtime side of the contracts: replays verifier counterexamples on the real
// code and searches for failing inputs.  Usage:
//   prog search <seed> <seconds> <tier>     -> exit 0 / exit 1 + "FAIL <case> :: <why>"
//   prog case <file>                        -> same, for the cases in the file
#pragma once
#include <signal.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
  double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * uniform(); }
  bool chance(double p) { return uniform() < p; }
  template <class C>
  auto pick(const C& c) -> decltype(c[0]) { return c[below(c.size())]; }
};

inline std::function<std::string()>& current() {
  static std::function<std::string()> f;
  return f;
}
inline uint64_t& count() { static uint64_t c = 0; return c; }
inline std::map<std::string, uint64_t>& counts() { static std::map<std::string, uint64_t> c; return c; }

inline std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r = "x";
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
inline std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
inline std::string show(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else { if (c == '"' || c == '\\') r += '\\'; r += char(c); }
  }
  return r + "\"";
}
template <class T>
std::string str(const T& v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

[[noreturn]] inline void fail(const std::string& why) {
  std::string c = current() ? current()() : std::string("?");
  std::cout << "FAIL " << c << " :: " << why << std::endl;
  std::_Exit(1);
}
inline void on_signal(int sig) {
  std::string c = "?";
  if (current()) c = current()();
  std::cout << "FAIL " << c << " :: " << (sig == SIGALRM ? "does not terminate (watchdog)" : "crash, signal " + std::to_string(sig)) << std::endl;
  std::_Exit(1);
}
// one contract evaluation; text() describes the case
struct Case {
  std::function<std::string()> saved;
  Case(const char* target, std::function<std::string()> text) {
    saved = current();
    ++count();
    ++counts()[target];
    std::string t = target;
    current() = [t, text] { return t + " " + text(); };
    if ((count() & 63) == 1) alarm(20);
  }
  ~Case() { current() = saved; }
};
inline void check(bool ok, const std::string& why) { if (!ok) fail(why); }
template <class A, class B>
void equal(const A& got, const B& want, const std::string& what) {
  if (!(got == want)) fail(what + ": got " + str(got) + ", want " + str(want));
}
inline bool close(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
struct Timer {
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double secs;
  explicit Timer(double s) : secs(s) {}
  bool left() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; }
};
// supplied by each property
void search(Rng& rng, double secs, bool thorough);
void run_case(const std::string& target, const std::vector<std::string>& args);
}  // namespace vf

// sanitizer reports name the case and become FAIL lines
extern "C" inline void vf_asan_death() {
  if (vf::current()) std::cout << "FAIL " << vf::current()() << " :: sanitizer report (memory error or undefined behaviour)" << std::endl;
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

int main(int argc, char** argv) {
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGABRT}) signal(s, vf::on_signal);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(vf_asan_death);
  std::string mode = argc > 1 ? argv[1] : "search";
  try {
    if (mode == "search") {
      vf::Rng rng(argc > 2 ? strtoull(argv[2], nullptr, 10) : 1);
      double secs = argc > 3 ? atof(argv[3]) : 5;
      bool thorough = argc > 4 && std::string(argv[4]) == "thorough";
      vf::search(rng, secs, thorough);
    } else {
      std::ifstream f(argv[2]);
      std::string line;
      while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string t, a;
        is >> t;
        if (t.empty()) continue;
        std::vector<std::string> args;
        while (is >> a) args.push_back(a);
        alarm(20);
        vf::run_case(t, args);
      }
    }
  } catch (const std::exception& e) {
    vf::fail(std::string("unexpected exception: ") + e.what());
  }
  alarm(0);
  std::cout << "OK " << vf::count();
  for (auto& k : vf::counts()) std::cout << " " << k.first << "=" << k.second;
  std::cout << std::endl;
  return 0;
}
