// Verification drivers for common/ParameterValue.{h,cc}: the real source, unmodified.
#include "common/ParameterValue.cc"
using std::string;
using dp3::common::ParameterValue;
extern "C" {
void drv_trim(string& out, const string& s) { out = ParameterValue(s).get(); }
void drv_notrim(string& out, const string& s) { out = ParameterValue(s, false).get(); }
void drv_expand(string& out, const ParameterValue& v) { out = v.expand().get(); }
void drv_getString(string& out, const ParameterValue& v) { out = v.getString(); }
void drv_getVector(std::vector<ParameterValue>& out, const ParameterValue& v) { out = v.getVector(); }
long drv_Uint32(const ParameterValue& v) { return v.getUint32(); }
long drv_Int32(const ParameterValue& v) { return v.getInt32(); }
long drv_Uint16(const ParameterValue& v) { return v.getUint16(); }
long drv_Int16(const ParameterValue& v) { return v.getInt16(); }
long drv_Int(const ParameterValue& v) { return v.getInt(); }
long drv_Uint(const ParameterValue& v) { return v.getUint(); }
long drv_Int64(const ParameterValue& v) { return v.getInt64(); }
unsigned long drv_Uint64(const ParameterValue& v) { return v.getUint64(); }
bool drv_Bool(const ParameterValue& v) { return v.getBool(); }
double drv_Float(const ParameterValue& v) { return v.getFloat(); }
double drv_Double(const ParameterValue& v) { return v.getDouble(); }
void drv_IntVector(std::vector<int>& out, const ParameterValue& v) { out = v.getIntVector(); }
void drv_UintVector(std::vector<unsigned>& out, const ParameterValue& v) { out = v.getUintVector(); }
void drv_Int16Vector(std::vector<int16_t>& out, const ParameterValue& v) { out = v.getInt16Vector(); }
void drv_Uint16Vector(std::vector<uint16_t>& out, const ParameterValue& v) { out = v.getUint16Vector(); }
void drv_Int32Vector(std::vector<int32_t>& out, const ParameterValue& v) { out = v.getInt32Vector(); }
void drv_Uint32Vector(std::vector<uint32_t>& out, const ParameterValue& v) { out = v.getUint32Vector(); }
void drv_Int64Vector(std::vector<int64_t>& out, const ParameterValue& v) { out = v.getInt64Vector(); }
void drv_Uint64Vector(std::vector<uint64_t>& out, const ParameterValue& v) { out = v.getUint64Vector(); }
void drv_FloatVector(std::vector<float>& out, const ParameterValue& v) { out = v.getFloatVector(); }
void drv_DoubleVector(std::vector<double>& out, const ParameterValue& v) { out = v.getDoubleVector(); }
}
