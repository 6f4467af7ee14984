// Drivers for common/baseline_indices.h (the real header).
#include "common/baseline_indices.h"
using namespace dp3::common;
extern "C" {
size_t drv_nbl(size_t n) { return ComputeNBaselines(n); }
size_t drv_index(size_t a, size_t b, size_t n, BaselineOrder o) { return ComputeBaselineIndex(a, b, n, o); }
void drv_baseline(size_t i, size_t n, BaselineOrder o, size_t* p, size_t* q) {
  const std::pair<size_t, size_t> r = ComputeBaseline(i, n, o);
  *p = r.first;
  *q = r.second;
}
void drv_list(std::vector<size_t>& out, size_t a, size_t n, BaselineOrder o) { out = ComputeBaselineList(a, n, o); }
}
