// Verification drivers for typed access in common/ParameterSet{,Impl}.{h,cc}: the real source, unmodified.
#include "common/ParameterSetImpl.cc"
#include "common/ParameterSet.h"
using std::string;
using std::vector;
using dp3::common::ParameterSet;
#define DRV(N, T) \
T drv_get_##N(const ParameterSet& p, const string& k) { return p.get##N(k); } \
T drv_def_##N(const ParameterSet& p, const string& k, T d) { return p.get##N(k, d); } \
VEC(N, T)
#define VEC(N, T) \
void drv_vec_##N(vector<T>& out, const ParameterSet& p, const string& k, bool e) { out = p.get##N##Vector(k, e); } \
void drv_vdef_##N(vector<T>& out, const ParameterSet& p, const string& k, const vector<T>& d, bool e) { out = p.get##N##Vector(k, d, e); }
extern "C" {
bool drv_get_Bool(const ParameterSet& p, const string& k) { return p.getBool(k); }
bool drv_def_Bool(const ParameterSet& p, const string& k, bool d) { return p.getBool(k, d); }
DRV(Int, int) DRV(Uint, unsigned) DRV(Int16, int16_t) DRV(Uint16, uint16_t) DRV(Int32, int32_t) DRV(Uint32, uint32_t)
DRV(Int64, int64_t) DRV(Uint64, uint64_t) DRV(Float, float) DRV(Double, double) DRV(Time, time_t)
VEC(String, string)
void drv_get_String(string& out, const ParameterSet& p, const string& k) { out = p.getString(k); }
void drv_def_String(string& out, const ParameterSet& p, const string& k, const string& d) { out = p.getString(k, d); }
void drv_get(string& out, const ParameterSet& p, const string& k) { out = p.get(k).get(); }
void drv_keyName(string& out, const string& k) { out = dp3::common::keyName(k); }
void drv_moduleName(string& out, const string& k) { out = dp3::common::moduleName(k); }
void drv_keyPart(string& out, const string& k) { out = dp3::common::keyPart(k); }
void drv_valuePart(string& out, const string& k) { out = dp3::common::valuePart(k); }
}
