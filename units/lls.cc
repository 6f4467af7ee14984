// Verification drivers for ddecal/linear_solvers: the real headers, unmodified.
#include "ddecal/linear_solvers/NormalEquationsSolver.h"
#include "ddecal/linear_solvers/QRSolver.h"
#include "ddecal/linear_solvers/SVDSolver.h"
using namespace dp3::ddecal;
extern "C" {
// contract: the buffers of the solver hold whatever an earlier call left there
void earlier_use(LLSSolver&);
bool drv_ne(int m, int n, int p, std::complex<float>* a, std::complex<float>* b) { NormalEquationsSolver s(m, n, p); earlier_use(s); return s.NormalEquationsSolver::Solve(a, b); }
bool drv_qr(int m, int n, int p, std::complex<float>* a, std::complex<float>* b) { QRSolver s(m, n, p); earlier_use(s); return s.QRSolver::Solve(a, b); }
bool drv_svd(int m, int n, int p, std::complex<float>* a, std::complex<float>* b) { SVDSolver s(m, n, p); earlier_use(s); return s.SVDSolver::Solve(a, b); }
}
