// Verification drivers for the sky model prediction: the real sources, unmodified (see sky.h).
#include "units/sky.h"
namespace dp3::base {
extern "C" {
void drv_stokes(const PointSource& s, double f, Stokes* out) { *out = s.stokes(f); }
void drv_lmn(const Direction& a, const Direction& b, double* lmn) { radec2lmn(a, b, lmn); }
float drv_sinc(float x) { return sinc(x); }
void drv_duo(Simulator::DuoMatrix<double>& m, size_t row, size_t col, double re, double im) { m.real(row, col) = re; m.imag(row, col) = im; }
void drv_phases(size_t nst, size_t nch, const double* lmn, const xt::xtensor<double, 2>& uvw, const std::vector<double>& freq, Simulator::DuoMatrix<double>& shift, const std::array<double, 3>& ncp, std::vector<double>& sp, std::vector<double>& er) { phases(nst, nch, lmn, uvw, freq, shift, ncp, sp, er); }
void drv_spectrum(const PointSource& s, size_t nch, const std::vector<double>& freq, Simulator::DuoMatrix<double>& out, bool ionly) { spectrum(s, nch, freq, out, ionly); }
void drv_point(Simulator& s, const PointSource& c) { s.Simulator::visit(c); }
void drv_gauss(Simulator& s, const GaussianSource& c) { s.Simulator::visit(c); }
void drv_euler(casacore::Matrix<double>& m, const Direction& d) { steps::PhaseShift::fillEulerMatrix(m, d); }
void drv_rotate(const Direction& a, const Direction& b, size_t n, double* uvw) { rotateUVW(a, b, n, uvw); }
void drv_split(const std::vector<int>& idx, const std::vector<Baseline>& bl, const xt::xtensor<double, 2>& uvw, xt::xtensor<double, 2>& st) { SplitUvw(idx, bl, uvw, st); }
void drv_setup(std::vector<int>* out, unsigned nant, const std::vector<int>& a1, const std::vector<int>& a2) { new (out) std::vector<int>(SetupUvwSplitting(nant, a1, a2)); }
}
}
