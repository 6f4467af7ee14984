// stand-in for CUDA's math_constants.h
#pragma once
extern "C" double vf_nan();
#define CUDART_NAN vf_nan()
#define CUDART_PI 3.1415926535897931e+0
