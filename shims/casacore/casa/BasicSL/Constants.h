// Stand-in for casacore's header: the constants the verified code uses.
#pragma once
namespace casacore { namespace C {
constexpr double c = 2.99792458e+8;
constexpr double pi = 3.141592653589793238462643383279502884197;
} }
