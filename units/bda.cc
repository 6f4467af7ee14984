// Verification drivers for base/BdaBuffer.cc: the real source, unmodified.
#include "base/BdaBuffer.cc"
using dp3::base::BdaBuffer;
typedef BdaBuffer::Row Row;
extern "C" {
bool drv_less(double x, double y) { return BdaBuffer::TimeIsLess(x, y); }
bool drv_lesseq(double x, double y) { return BdaBuffer::TimeIsLessEqual(x, y); }
bool drv_greatereq(double x, double y) { return BdaBuffer::TimeIsGreaterEqual(x, y); }
bool drv_equal(double x, double y) { return BdaBuffer::TimeIsEqual(x, y); }
bool drv_row_equal(const Row& a, const Row& b) { return a.IsMetadataEqual(b); }
bool drv_equal_meta(const BdaBuffer& a, const BdaBuffer& b) { return a.IsMetadataEqual(b); }
void drv_row(Row* out, double t, double i, double e, unsigned long long nr, size_t bl, size_t nch, size_t nco, size_t off, const double* uvw) { new (out) Row(t, i, e, nr, bl, nch, nco, off, uvw); }
bool drv_add(BdaBuffer& b, double t, double i, double e, size_t bl, size_t nch, size_t nco, unsigned long long nr, const std::complex<float>* d, const bool* f, const float* w, const double* uvw) { return b.AddRow(t, i, e, bl, nch, nco, nr, d, f, w, uvw); }
void drv_clear(BdaBuffer& b) { b.Clear(); }
size_t drv_elements(const BdaBuffer& b) { return b.GetNumberOfElements(); }
size_t drv_remaining(const BdaBuffer& b) { return b.GetRemainingCapacity(); }
const bool* drv_flags(const BdaBuffer& b, size_t row) { return b.GetFlags(row); }
const float* drv_weights(const BdaBuffer& b, size_t row) { return b.GetWeights(row); }
}
