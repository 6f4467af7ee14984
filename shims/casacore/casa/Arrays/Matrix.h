#pragma once
#include <casacore/casa/Arrays/Arrays.h>
