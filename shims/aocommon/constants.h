// Stand-in for the absent aocommon header.
#pragma once
namespace aocommon { constexpr double kSpeedOfLight = 299792458.0; }
