// Verification drivers for parmdb/{Axis,Box,Grid,AxisMapping}: the real sources, unmodified.
#include <new>
#include "parmdb/Axis.cc"
#include "parmdb/Box.cc"
#include "parmdb/Grid.cc"
#include "parmdb/AxisMapping.cc"
using namespace dp3::parmdb;
extern "C" {
size_t drv_find(const Axis& a, double x, bool right, size_t hint, bool& found) { auto r = a.find(x, right, hint); found = r.second; return r.first; }
void drv_regular(RegularAxis* out, double s, double w, unsigned n, bool se) { new (out) RegularAxis(s, w, n, se); }
void drv_ordered(OrderedAxis* out, const std::vector<double>& a, const std::vector<double>& b, bool se) { new (out) OrderedAxis(a, b, se); }
void drv_make(std::shared_ptr<Axis>* out, const std::vector<double>& low, const std::vector<double>& upp) { new (out) std::shared_ptr<Axis>(Axis::makeAxis(low, upp)); }
void drv_combine(std::shared_ptr<Axis>* out, const Axis& a, const Axis& b, int& s1, int& e1, int& s2, int& e2) { new (out) std::shared_ptr<Axis>(a.combine(b, s1, e1, s2, e2)); }
void drv_subset(std::shared_ptr<Axis>* out, const RegularAxis& a, size_t s, size_t e) { new (out) std::shared_ptr<Axis>(a.RegularAxis::doSubset(s, e)); }
void drv_subset_o(std::shared_ptr<Axis>* out, const OrderedAxis& a, size_t s, size_t e) { new (out) std::shared_ptr<Axis>(a.OrderedAxis::doSubset(s, e)); }
void drv_range(std::shared_ptr<Axis>* out, const Axis& a, double s, double e, size_t& index) { new (out) std::shared_ptr<Axis>(a.subset(s, e, index)); }
void drv_compress(std::shared_ptr<Axis>* out, const RegularAxis& a, size_t f) { new (out) std::shared_ptr<Axis>(a.RegularAxis::compress(f)); }
void drv_compress_o(std::shared_ptr<Axis>* out, const OrderedAxis& a, size_t f) { new (out) std::shared_ptr<Axis>(a.OrderedAxis::compress(f)); }
bool drv_check(const Axis& a, const Axis& b) { return a.checkIntervals(b); }
void drv_mapping(AxisMapping* out, const Axis& a, const Axis& b) { new (out) AxisMapping(a, b); }
void drv_domains(const Grid& g, std::vector<Box>& out) { g.toDomains(out); }
unsigned drv_cellid(const Grid& g, size_t x, size_t y) { return g.getCellId(Grid::Location(x, y)); }
void drv_location(const Grid& g, unsigned id, size_t& x, size_t& y) { auto l = g.getCellLocation(id); x = l.first; y = l.second; }
void drv_next(CellIterator& i, bool& end) { ++i; end = i.atEnd(); }
bool drv_intersects(const Box& a, const Box& b) { return a.intersects(b); }
bool drv_contains(const Box& a, const Box& b) { return a.contains(b); }
bool drv_empty(const Box& a) { return a.empty(); }
bool drv_eq(const Box& a, const Box& b) { return a == b; }
bool drv_ne(const Box& a, const Box& b) { return a != b; }
bool drv_lt(const Box& a, const Box& b) { return a < b; }
bool drv_gt(const Box& a, const Box& b) { return a > b; }
void drv_unite(Box* out, const Box& a, const Box& b) { *out = a | b; }
void drv_inter(Box* out, const Box& a, const Box& b) { *out = a & b; }
void drv_box4(Box* out, double a, double b, double c, double d, bool se) { new (out) Box(a, b, c, d, se); }
void drv_boxv(Box* out, const std::vector<double>& v) { new (out) Box(v); }
}
