// Verification driver for ParameterValue::splitValue (private): the real source, unmodified.
#include <string>
#include <vector>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <memory>
#define private public   // access only
#include "common/ParameterValue.h"
#undef private
#include "common/ParameterValue.cc"
using dp3::common::ParameterValue;
extern "C" {
void drv_split(std::vector<ParameterValue>& out, const ParameterValue& v, unsigned st, unsigned last) { out = v.splitValue(st, last); }
void drv_substr(std::string& out, const ParameterValue& v, int st, int end) { out = v.substr(st, end).get(); }
}
