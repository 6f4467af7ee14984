// Verification drivers for common/PhaseLineFitter.h and ddecal/constraints/PieceWisePhaseFitter.h: the real headers, unmodified.
#include <vector>
#include <cassert>
#include "common/PhaseLineFitter.h"
#include "ddecal/constraints/PieceWisePhaseFitter.h"
using namespace dp3::common::phase_fitting;
typedef dp3::ddecal::PieceWisePhaseFitter PW;
typedef std::vector<double> V;
extern "C" {
double drv_unwrapfit(const std::vector<FitSample>& d, double s) { return UnwrapAndFit(d, s); }
double drv_cost(const std::vector<FitSample>& d, double s) { return SlopeModelCost(d, s); }
void drv_range(const std::vector<FitSample>& d, SlopeFitRange* out) { *out = GetRange(d); }
void drv_range_limit(const std::vector<FitSample>& d, int limit, SlopeFitRange* out) { *out = GetRange(d, limit); }
double drv_fit(const std::vector<FitSample>& d, const SlopeFitRange& r) { return FitSlope(d, r); }
double drv_fit_all(const std::vector<FitSample>& d) { return FitSlope(d); }
void drv_unwrap(double* first, double* last) { PW::Unwrap(first, last); }
double drv_wmedian(std::vector<std::pair<double, double>>& v) { return PW::WeightedMedian(v); }
size_t drv_break(PW& p, const double* d, const double* w, const double* f, size_t n) { return p.BreakPoint(d, w, f, n); }
void drv_sliding(PW& p, const double* nu, const double* d, double* f, size_t n) { p.SlidingFit(nu, d, f, n); }
void drv_wsliding(PW& p, const double* nu, const double* d, const double* w, double* f, size_t n) { p.SlidingFit(nu, d, w, f, n); }
void drv_piecewise(PW& p, const V& nu, const V& d, V& f) { p.PieceWiseFit(nu, d, f); }
void drv_wpiecewise(PW& p, const V& nu, const V& d, const double* w, V& f) { p.PieceWiseFit(nu, d, w, f); }
void drv_slope(PW& p, const double* d, const double* nu, size_t n, double& a, double& b) { p.fitSlope(d, nu, n, a, b); }
void drv_wslope(PW& p, const double* d, const double* nu, const double* w, size_t n, double& a, double& b) { p.fitSlope(d, nu, w, n, a, b); }
size_t drv_withbreak(PW& p, const double* nu, const double* d, const double* w, double* f, size_t n) { return p.SlidingFitWithBreak(nu, d, w, f, n); }
}
