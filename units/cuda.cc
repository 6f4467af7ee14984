// Verification drivers for the GPU solver kernels: the real IterativeDiagonal.cu with
// its kernel launches Kernel<<<grid, block, memory, stream>>>(...) written as
// VF_LAUNCH(Kernel, grid, block, memory, stream)(...) (no other change).
#include "cuda_runtime.h"
extern "C" void vf_grid(size_t grid, size_t block);
#define VF_LAUNCH(kernel, grid, block, mem, stream) (vf_grid(grid, block), kernel)
#include "IterativeDiagonal.inc"
typedef cuM2x2FloatComplex M;
typedef cuM2x2DoubleComplex MD;
typedef cuM2x2FloatComplexDiagonal D;
typedef cuM2x2DoubleComplexDiagonal DD;
typedef cuDoubleComplex CD;
typedef cuFloatComplex CF;
typedef const unsigned U;
extern "C" {
void drv_madd(const M& a, const M& b, M& r) { r = a + b; }
void drv_msub(const M& a, const M& b, M& r) { r = a - b; }
void drv_mmul(const M& a, const M& b, M& r) { r = a * b; }
void drv_mconj(const M& a, M& r) { r = cuConj(a); }
void drv_dmul(const D& a, const M& b, M& r) { r = a * b; }
void drv_mmuld(const MD& a, const MD& b, MD& r) { r = a * b; }
void drv_mconjd(const MD& a, MD& r) { r = cuConj(a); }
void drv_dmuld(const DD& a, const MD& b, MD& r) { r = a * b; }
void drv_mdouble(const M& a, MD& r) { r = make_cuM2x2ComplexDouble(a); }
void drv_add(size_t v, size_t ns, U* pairs, U* map, const CD* sol, const M* model, const M* in, M* out) { AddOrSubtract<true>(v, ns, pairs, map, sol, model, in, out); }
void drv_subtract(size_t v, size_t ns, U* pairs, U* map, const CD* sol, const M* model, const M* in, M* out) { AddOrSubtract<false>(v, ns, pairs, map, sol, model, in, out); }
void drv_direction(size_t v, size_t nv, size_t nd, size_t ns, U* pairs, U* map, const CD* sol, const M* model, const M* res, CF* num, float* den) { SolveDirection(v, nv, nd, ns, pairs, map, sol, model, res, num, den); }
void drv_kdirection(size_t nv, size_t nd, size_t ns, U* pairs, U* map, const CD* sol, const M* model, const M* in, M* temp, CF* num, float* den) { SolveDirectionKernel(nv, nd, ns, pairs, map, sol, model, in, temp, num, den); }
void drv_ksubtract(size_t nd, size_t nv, size_t ns, U* pairs, U* map, const CD* sol, const CF* model, M* res) { SubtractKernel(nd, nv, ns, pairs, map, sol, model, res); }
void drv_knext(unsigned na, unsigned nd, unsigned ns, U* map, const CF* num, const float* den, CD* next) { SolveNextSolutionKernel(na, nd, ns, map, num, den, next); }
void drv_kstep(size_t nv, const CD* sol, CD* next, bool phase, double step) { StepKernel(nv, sol, next, phase, step); }
void drv_ldirection(size_t nv, size_t nd, size_t ns, size_t dir, cu::DeviceMemory& pairs, cu::DeviceMemory& map, cu::DeviceMemory& sol, cu::DeviceMemory& model, cu::DeviceMemory& in, cu::DeviceMemory& temp, cu::DeviceMemory& num, cu::DeviceMemory& den) { LaunchSolveDirectionKernel(0, nv, nd, ns, dir, pairs, map, sol, model, in, temp, num, den); }
void drv_lsubtract(size_t nd, size_t nv, size_t ns, cu::DeviceMemory& pairs, cu::DeviceMemory& map, cu::DeviceMemory& sol, cu::DeviceMemory& model, cu::DeviceMemory& res) { LaunchSubtractKernel(0, nd, nv, ns, pairs, map, sol, model, res); }
void drv_lnext(size_t na, size_t nv, size_t nd, size_t ns, size_t dir, cu::DeviceMemory& pairs, cu::DeviceMemory& map, cu::DeviceMemory& next, cu::DeviceMemory& num, cu::DeviceMemory& den) { LaunchSolveNextSolutionKernel(0, na, nv, nd, ns, dir, pairs, map, next, num, den); }
void drv_lstep(size_t nv, cu::DeviceMemory& sol, cu::DeviceMemory& next, bool phase, double step) { LaunchStepKernel(0, nv, sol, next, phase, step); }
}
