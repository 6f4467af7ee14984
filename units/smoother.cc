// Verification drivers for ddecal/constraints/KernelSmoother.h: the real header, unmodified.
#include "ddecal/constraints/KernelSmoother.h"
#include <algorithm>
#include <new>
using dp3::ddecal::KernelSmoother;
typedef KernelSmoother<double, double> Real;
typedef KernelSmoother<std::complex<double>, double> Complex;
extern "C" {
double drv_kernel(const Real& s, double d) { return s.Kernel(d); }
double drv_kernel_c(const Complex& s, double d) { return s.Kernel(d); }
void drv_smooth(Real& s, double* data, const double* weight, double factor) { s.Smooth(data, weight, factor); }
void drv_smooth_c(Complex& s, std::complex<double>* data, const double* weight, double factor) { s.Smooth(data, weight, factor); }
void drv_make(Real* out, const std::vector<double>& f, int type, double bw, double ref, double se, bool trunc) { new (out) Real(f, Real::KernelType(type), bw, ref, se, trunc); }
}
