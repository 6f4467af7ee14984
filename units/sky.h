// The real sources of the sky model prediction, unmodified.  DPBuffer and
// PhaseShift are replaced by the one member each that these sources use
// (fillEulerMatrix is extracted from steps/PhaseShift.cc on every run).
#pragma once
#include <algorithm>
#include <array>
#include <cstring>
#include <numeric>
#include <set>
#include <stdexcept>
#include <vector>
#include <casacore/casa/Arrays/Arrays.h>
#include <xtensor/containers/xtensor.hpp>
#define DP3_BASE_DPBUFFER_H_
#define DP3_STEPS_PHASESHIFT_H_
#include "base/Direction.h"
namespace dp3::base { class DPBuffer { public: using UvwType = xt::xtensor<double, 2>; }; }
namespace dp3::steps { class PhaseShift { public: static void fillEulerMatrix(casacore::Matrix<double>& mat, const base::Direction& direction); }; }
using casacore::Matrix;
#include "fillEulerMatrix.inc"
#include "base/Stokes.cc"
#include "base/PointSource.cc"
#include "base/GaussianSource.cc"
#include "sky_model/Patch.cc"
#include "base/Simulator.cc"
#include "base/Simulate.cc"
