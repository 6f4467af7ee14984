// Verification drivers for ddecal/SolutionResampler.cc: the real source, unmodified.
#include "ddecal/SolutionResampler.cc"
using dp3::ddecal::SolutionResampler;
extern "C" {
size_t drv_substeps(const std::vector<size_t>& n, size_t n_ant, size_t interval) { SolutionResampler r(n, n_ant, interval); return r.GetNrSubSteps(); }
void drv_map(size_t& t, size_t& o, size_t& ns, const std::vector<size_t>& n, size_t n_ant, size_t interval, size_t time, size_t ant, size_t dir, size_t pol, size_t n_pol) {
  SolutionResampler r(n, n_ant, interval);
  auto p = r.MapResampledToOriginal(time, ant, dir, pol, n_pol);
  t = p.first; o = p.second; ns = r.GetNrSubSteps();
}
void drv_upsample(std::vector<std::vector<std::vector<std::complex<double>>>>& out, const SolutionResampler& r,
                  const std::vector<std::vector<std::vector<std::complex<double>>>>& in, size_t n_pol) { out = r.Upsample(in, n_pol); }
}
