// Verification drivers for common/StringTools.cc: the real source, unmodified.
#include "common/StringTools.cc"
using std::string;
namespace c = dp3::common;
extern "C" {
unsigned drv_lskipws(const string& s, unsigned st, unsigned end) { return c::lskipws(s, st, end); }
unsigned drv_rskipws(const string& s, unsigned st, unsigned end) { return c::rskipws(s, st, end); }
unsigned drv_skipQuoted(const string& s, unsigned st) { return c::skipQuoted(s, st); }
unsigned drv_skipBalanced(const string& s, unsigned st, unsigned end, char ec) { return c::skipBalanced(s, st, end, ec); }
bool drv_strToBool(const string& s) { return c::strToBool(s); }
long drv_strToLong(const string& s) { return c::strToLong(s); }
int drv_strToInt(const string& s) { return c::strToInt(s); }
int32_t drv_strToInt32(const string& s) { return c::strToInt32(s); }
int16_t drv_strToInt16(const string& s) { return c::strToInt16(s); }
int64_t drv_strToInt64(const string& s) { return c::strToInt64(s); }
unsigned long drv_strToUlong(const string& s) { return c::strToUlong(s); }
unsigned drv_strToUint(const string& s) { return c::strToUint(s); }
uint32_t drv_strToUint32(const string& s) { return c::strToUint32(s); }
uint16_t drv_strToUint16(const string& s) { return c::strToUint16(s); }
uint64_t drv_strToUint64(const string& s) { return c::strToUint64(s); }
float drv_strToFloat(const string& s) { return c::strToFloat(s); }
double drv_strToDouble(const string& s) { return c::strToDouble(s); }
void drv_tokenize(std::vector<string>& out, const string& s, const string& d) { out = c::stringtools::tokenize(s, d); }
void drv_expandArray(string& out, const string& s) { out = c::expandArrayString(s); }
void drv_expandRange(string& out, const string& s) { out = c::expandRangeString(s); }
void drv_expandMult(string& out, const string& s) { out = c::expandMultString(s); }
}
