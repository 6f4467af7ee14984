// stand-in for CUDA's runtime: the number of the running thread and the atomic
// addition are left to the including translation unit
#pragma once
#include "cuComplex.h"
typedef int cudaStream_t;
extern "C" unsigned vf_block(), vf_thread(), vf_blockdim();
struct vf_block_t { unsigned x = vf_block(), y = 0, z = 0; };
struct vf_thread_t { unsigned x = vf_thread(), y = 0, z = 0; };
struct vf_dim_t { unsigned x = vf_blockdim(), y = 1, z = 1; };
#define blockIdx vf_block_t()
#define threadIdx vf_thread_t()
#define blockDim vf_dim_t()
extern "C" float vf_atomic_add(float* p, float v);
static inline float atomicAdd(float* p, float v) { return vf_atomic_add(p, v); }
