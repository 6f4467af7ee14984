// Drivers for common/Fields.h: every Fields value is an arbitrary object (class
// invariant: no bits beyond the declared fields), observed through the public
// getters before and after each operation.
#include "common/Fields.h"
using dp3::common::Fields;
static void put(const Fields& x, bool* o) {
  o[0] = x.Data();
  o[1] = x.Flags();
  o[2] = x.Weights();
  o[3] = x.Uvw();
}
extern "C" {
void drv_empty(bool* o) { put(Fields(), o); }
void drv_single(Fields::Single s, bool* o) { put(Fields(s), o); }
void drv_or(const Fields& a, const Fields& b, bool* x, bool* y, bool* o, bool* o1, bool* o2) {
  put(a, x);
  put(b, y);
  put(a | b, o);
  put(a, o1);
  put(b, o2);
}
void drv_ior(Fields& a, const Fields& b, bool* x, bool* y, bool* o, bool* o2) {
  put(a, x);
  put(b, y);
  a |= b;
  put(a, o);
  put(b, o2);
}
bool drv_eq(const Fields& a, const Fields& b, bool* x, bool* y) {
  put(a, x);
  put(b, y);
  return a == b;
}
bool drv_ne(const Fields& a, const Fields& b, bool* x, bool* y) {
  put(a, x);
  put(b, y);
  return a != b;
}
void drv_update(Fields& a, const Fields& r, const Fields& p, bool* x, bool* y, bool* z, bool* o) {
  put(a, x);
  put(r, y);
  put(p, z);
  a.UpdateRequirements(r, p);
  put(a, o);
}
// two steps, processed from the last to the first as the chain does
void drv_chain2(const Fields& r1, const Fields& p1, const Fields& r2, const Fields& p2, bool* x, bool* y, bool* z, bool* w, bool* o) {
  put(r1, x);
  put(p1, y);
  put(r2, z);
  put(p2, w);
  Fields a;
  a.UpdateRequirements(r2, p2).UpdateRequirements(r1, p1);
  put(a, o);
}
}
