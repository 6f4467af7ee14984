// Verification drivers for common/Timer.h: the real header, unmodified; the
// clock is a parameter of the template.
#include "common/Timer.h"
using namespace dp3::common;
extern "C" long read_clock();  // contract: the current time in ticks
struct Clk {
  typedef std::chrono::nanoseconds duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef std::chrono::time_point<Clk> time_point;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(read_clock())); }
};
typedef BaseTimer<Clk> T;
extern "C" {
long ticks(const T& t);   // ghost reads, never called
void drv_ctor(long& n, double& e, const std::string& s) { T t(s); n = (long)t.getCount(); e = t.getElapsed(); }
void drv_start(T& t) { t.start(); }
void drv_stop(T& t) { t.stop(); }
void drv_reset(T& t) { t.reset(); }
void drv_add(T& t, const T& u) { t += u; }
double drv_elapsed(const T& t) { return t.getElapsed(); }
double drv_average(const T& t) { return t.getAverage(); }
unsigned long drv_count(const T& t) { return t.getCount(); }
void drv_scope(T& t) { T::StartStop s(t); }
void body();              // contract: may throw
void drv_scope_throw(T& t) { T::StartStop s(t); body(); }
void drv_acc(double& a) { ScopedMicroSecondAccumulator<double, Clk> s(a); body(); }
}
