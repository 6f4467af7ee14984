// Stand-in for casacore's version header (casacore is not installed here).
#pragma once
#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 5
namespace casacore { typedef unsigned long long rownr_t; }
