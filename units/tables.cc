// Drivers for the name tables: base/CalType.cc, base/RcuMode.h, ddecal/linear_solvers/LLSSolver.cc
#include "base/CalType.cc"
#include "base/RcuMode.h"
#include "ddecal/linear_solvers/LLSSolver.cc"
using namespace dp3::base;
using dp3::ddecal::LLSSolver;
using dp3::ddecal::LLSSolverType;
using std::string;
static const int kNotAMode = -1;
// position in the documented list of modes, independent of the enumerators' values
static int pos(CalType c) {
  switch (c) {
    case CalType::kScalar: return 0;
    case CalType::kScalarAmplitude: return 1;
    case CalType::kScalarPhase: return 2;
    case CalType::kDiagonal: return 3;
    case CalType::kDiagonalAmplitude: return 4;
    case CalType::kDiagonalPhase: return 5;
    case CalType::kFullJones: return 6;
    case CalType::kTec: return 7;
    case CalType::kTecAndDelay: return 8;
    case CalType::kTecAndPhase: return 9;
    case CalType::kTecPhaseAndDelay: return 10;
    case CalType::kTecScreen: return 11;
    case CalType::kRotationAndDiagonal: return 12;
    case CalType::kRotation: return 13;
    case CalType::kFaradayRotation: return 14;
    case CalType::kLeakage: return 15;
    case CalType::kLeakageAmplitude: return 16;
  }
  return kNotAMode;
}
static CalType at(int k) {
  switch (k) {
    default:
    case 0: return CalType::kScalar;
    case 1: return CalType::kScalarAmplitude;
    case 2: return CalType::kScalarPhase;
    case 3: return CalType::kDiagonal;
    case 4: return CalType::kDiagonalAmplitude;
    case 5: return CalType::kDiagonalPhase;
    case 6: return CalType::kFullJones;
    case 7: return CalType::kTec;
    case 8: return CalType::kTecAndDelay;
    case 9: return CalType::kTecAndPhase;
    case 10: return CalType::kTecPhaseAndDelay;
    case 11: return CalType::kTecScreen;
    case 12: return CalType::kRotationAndDiagonal;
    case 13: return CalType::kRotation;
    case 14: return CalType::kFaradayRotation;
    case 15: return CalType::kLeakage;
    case 16: return CalType::kLeakageAmplitude;
  }
}
static int lls(LLSSolverType t) {
  switch (t) {
    case LLSSolverType::SVD: return 0;
    case LLSSolverType::QR: return 1;
    case LLSSolverType::NORMAL_EQUATIONS: return 2;
  }
  return -1;
}
extern "C" {
int drv_caltype(const string& s) { return pos(StringToCalType(s)); }
int drv_caltype_rt(int k) { return pos(StringToCalType(ToString(at(k)))); }
size_t drv_npol(int k) { return GetNPolarizations(at(k)); }
void drv_caltype_name(string& out, int k) { out = ToString(at(k)); }
int drv_rcu_from(int k) { return static_cast<int>(RcuMode::FromNumber(k).mode); }
void drv_rcu_name(string& out, int k) { out = RcuMode::FromNumber(k).ToString(); }
void drv_rcu_type(string& out, int k) { out = RcuMode::FromNumber(k).AntennaType(); }
double drv_rcu_bw(int k) { return RcuMode::FromNumber(k).Bandwidth(); }
double drv_rcu_freq(int k) { return RcuMode::FromNumber(k).CentralFrequency(); }
double drv_rcu_off(int k) { return RcuMode::FromNumber(k).FrequencyOffset(); }
int drv_lls(const string& s) { return lls(LLSSolver::ParseType(s)); }
}
