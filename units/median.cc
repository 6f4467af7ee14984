// Verification drivers for common/Median.h: the real header, unmodified.
#include "common/Median.h"
extern "C" {
double drv_median_d(std::vector<double>& v) { return dp3::common::Median(v); }
float drv_median_f(std::vector<float>& v) { return dp3::common::Median(v); }
}
