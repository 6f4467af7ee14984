// stand-in for cudawrappers: device memory is host memory
#pragma once
#include "cuda_runtime.h"
typedef void* CUdeviceptr;
namespace cu {
struct DeviceMemory {
  void* p;
  explicit DeviceMemory(void* q) : p(q) {}
  operator CUdeviceptr() const { return p; }
};
}
