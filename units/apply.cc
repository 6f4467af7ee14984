// Drivers for base/Apply.cc, base/SubtractMixed.cc and base/Cursor.h: the real
// functions on contiguous buffers, cursors built as the callers build them.
#include <algorithm>
#include "base/Apply.cc"
#include "base/SubtractMixed.cc"
using namespace dp3::base;
extern "C" {
void drv_apply(size_t n_bl, size_t n_ch, const Baseline* bl, const double* coeff, std::complex<double>* data) {
  const size_t cs[2] = {1, 8};
  const size_t ds[3] = {1, 4, 4 * n_ch};
  apply(n_bl, n_ch, const_cursor<Baseline>(bl), const_cursor<double>(coeff, 2, cs), cursor<std::complex<double>>(data, 3, ds));
}
void drv_subtract(size_t n_bl, size_t n_ch, const Baseline* bl, std::complex<float>* data, const std::complex<double>* model,
                  const std::complex<double>* weight, float* before, float* after) {
  const size_t ds[3] = {1, 4, 4 * n_ch};
  subtract(n_bl, n_ch, const_cursor<Baseline>(bl), cursor<std::complex<float>>(data, 3, ds), const_cursor<std::complex<double>>(model, 3, ds),
           const_cursor<std::complex<double>>(weight, 3, ds), *before, *after);
}
}
