// stand-in for CUDA's cuComplex.h: complex numbers as pairs
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#define __host__
#define __device__
#define __global__
#ifndef __inline__
#define __inline__ inline
#endif
template <class T>
struct vf_pair {
  T x, y;
  vf_pair(T a = 0, T b = 0) : x(a), y(b) {}
  vf_pair(const vf_pair& o) : x(o.x), y(o.y) {}
  vf_pair& operator=(const vf_pair& o) { x = o.x; y = o.y; return *this; }
};
typedef vf_pair<float> cuFloatComplex;
typedef vf_pair<double> cuDoubleComplex;
static inline cuFloatComplex make_cuFloatComplex(float x, float y) { return cuFloatComplex(x, y); }
static inline cuDoubleComplex make_cuDoubleComplex(double x, double y) { return cuDoubleComplex(x, y); }
static inline float cuCrealf(cuFloatComplex a) { return a.x; }
static inline float cuCimagf(cuFloatComplex a) { return a.y; }
static inline double cuCreal(cuDoubleComplex a) { return a.x; }
static inline double cuCimag(cuDoubleComplex a) { return a.y; }
static inline cuFloatComplex cuCaddf(cuFloatComplex a, cuFloatComplex b) { return make_cuFloatComplex(a.x + b.x, a.y + b.y); }
static inline cuFloatComplex cuCsubf(cuFloatComplex a, cuFloatComplex b) { return make_cuFloatComplex(a.x - b.x, a.y - b.y); }
static inline cuFloatComplex cuCmulf(cuFloatComplex a, cuFloatComplex b) { return make_cuFloatComplex(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); }
static inline cuFloatComplex cuConjf(cuFloatComplex a) { return make_cuFloatComplex(a.x, -a.y); }
static inline cuDoubleComplex cuCadd(cuDoubleComplex a, cuDoubleComplex b) { return make_cuDoubleComplex(a.x + b.x, a.y + b.y); }
static inline cuDoubleComplex cuCsub(cuDoubleComplex a, cuDoubleComplex b) { return make_cuDoubleComplex(a.x - b.x, a.y - b.y); }
static inline cuDoubleComplex cuCmul(cuDoubleComplex a, cuDoubleComplex b) { return make_cuDoubleComplex(a.x * b.x - a.y * b.y, a.x * b.y + a.y * b.x); }
static inline cuDoubleComplex cuConj(cuDoubleComplex a) { return make_cuDoubleComplex(a.x, -a.y); }
static inline cuFloatComplex cuComplexDoubleToFloat(cuDoubleComplex a) { return make_cuFloatComplex((float)a.x, (float)a.y); }
static inline cuDoubleComplex cuComplexFloatToDouble(cuFloatComplex a) { return make_cuDoubleComplex(a.x, a.y); }
