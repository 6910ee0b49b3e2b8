H = "common/include/rofl/common/"
S = "common/src/"
G = "geometry/src/"
GH = "geometry/include/rofl/geometry/"
P = "pcl/include/rofl/pcl/point_cloud_plane_aligner.h"

bug("C02-next-bottom-right", "C02", "reading the item next to the bottom of a heap with exactly three items",
 "With three items the item next to the bottom is the top.",
 [(H + "min_max_heap.h", "            if (data_.size() < 3) {", "            if (data_.size() <= 3) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() { int a[] = {1, 2, 3}; do { rofl::MinMaxHeap<int> h; for (int x : a) h.push(x); CHECK(h.nextBottom() == 2); } while (std::next_permutation(a, a + 3)); }
''', src="")

bug("C05-size-index", "C05", "an interval with more cells than the index type can count",
 "The number of cells is multiplied in the index type and wraps.",
 [(H + "interval_indices.h", "            size_t s = 1;\n", "            Index s = 1;\n")],
 r'''
#include <rofl/common/interval_indices.h>
int main() { rofl::IntervalIndices<3, int> v({0, 0, 0}, {4096, 4096, 4096}); CHECK(v.size() == (size_t) 1 << 36); rofl::IntervalIndices<2, short> w({0, 0}, {300, 300}); CHECK(w.size() == 90000); }
''', src="")

bug("C06-odd-sweep", "C06", "the boustrophedon traversal of three or more dimensions with an odd dimension in the middle",
 "The direction of a sweep ignores the parity carried by the outer sweep.",
 [(H + "interval_indices.h", "                    Index oddInner = (indices[d] + dimensions[d] * odd) % 2;", "                    Index oddInner = (indices[d] + (d == 1 ? 0 : dimensions[d] * odd)) % 2;")],
 r'''
#include <rofl/common/interval_indices.h>
int main() { for (int a = 1; a < 4; ++a) for (int b = 1; b < 5; ++b) for (int c = 1; c < 5; ++c) { rofl::IntervalIndices<3, int> v({0, 0, 0}, {a, b, c}); std::array<int, 3> p; bool first = true;
  for (auto it = v.beginBoustrophedon(); it != v.endBoustrophedon(); ++it) { auto q = *it; if (!first) CHECK(std::abs(p[0] - q[0]) + std::abs(p[1] - q[1]) + std::abs(p[2] - q[2]) == 1); first = false; p = q; } } }
''', src="")

bug("C07-unchecked", "C07", "writing through a position past the end of a grid",
 "The writable positional access is not checked.",
 [(H + "grid.h", "        Value& value(const Index& pos) {\n            return data_.at(pos);", "        Value& value(const Index& pos) {\n            return *(data_.begin() + pos);")],
 r'''
#include <rofl/common/grid.h>
using G2 = rofl::Grid<2, int, int, rofl::detail::RasterIndexer<2, int>, std::vector, std::allocator>;
int main() { G2 g; g.initBounds({4, 4}); g.initBounds({2, 2}); bool refused = false; try { g.value(5) = 3; } catch (const std::exception&) { refused = true; } CHECK(refused); }
''', src="")

bug("C08-filter-off", "C08", "disabling the filter of a detector after it was enabled",
 "A filter once enabled stays enabled.",
 [(H + "peak_finder_d.h", "            enableFilterMinValue_ = on;", "            enableFilterMinValue_ = on || enableFilterMinValue_;")],
 r'''
#include <rofl/common/peak_finder_d.h>
int main() { rofl::PeakFinderD<1, int, int, std::greater<int> > f; int v[] = {0, 5, 0, 2, 0}; f.setDomain({5}); f.setPeakWindow({1}); f.enableFilterPeakMin(true, 3); f.enableFilterPeakMin(false, 3);
  std::vector<std::array<int, 1> > m; f.detect([&](const std::array<int, 1>& i) { return v[i[0]]; }, std::back_inserter(m)); CHECK(m.size() == 2); }
''', src="")

bug("C09-msb-tie", "C09", "two vectors whose first difference is at the same bit in two dimensions and continues in the second",
 "The comparison of the leading bits takes the larger difference instead of the coarser one.",
 [(H + "morton_sort.h", "    return (i1 < i2 && i1 < (i1 ^ i2));", "    return (i1 < i2 && (i1 ^ i2) >= (i1 & ~i2));")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { for (unsigned a = 0; a < 16; ++a) for (unsigned b = 0; b < 16; ++b) for (unsigned c = 0; c < 16; ++c) for (unsigned d = 0; d < 16; ++d) { unsigned v[] = {a, b}, w[] = {c, d}; unsigned x = 0, y = 0;
  for (int i = 3; i >= 0; --i) { x = x * 4 + ((a >> i) & 1) * 2 + ((b >> i) & 1); y = y * 4 + ((c >> i) & 1) * 2 + ((d >> i) & 1); } bool r = rofl::mortonCmpInt<unsigned, 2>(v, w); CHECK(r == (x < y)); } }
''')

bug("C11-top-level", "C11", "splitting values that differ at the highest bit",
 "The middle of the widest interval is one below the upper half.",
 [(H + "morton_sort.h", "    if (level < IT::BIT_NUM) {", "    if (level < IT::BIT_NUM - 1) {")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { int v[] = {1, 5}, w[] = {1 << 30, 6}, l[2], m[2], u[2]; rofl::mortonSplitInt<int, 2>(v, w, l, m, u); CHECK(l[0] == 0 && u[0] == std::numeric_limits<int>::max() && m[0] == 1 << 30); }
''')

bug("C12-upper-corner", "C12", "an item exactly at the upper corner of the searched box",
 "Items equal to the upper corner are not found.",
 [(H + "morton_tree.h", "        ConstIterator last = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);", "        ConstIterator last = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);")],
 r'''
#include <rofl/common/morton_tree.h>
int main() { rofl::MortonTree2i t; for (int x = 0; x < 4; ++x) for (int y = 0; y < 4; ++y) t.insert({{x, y}, 0}); std::vector<rofl::MortonTree2i::ConstIterator> r; t.searchInBox({{1, 1}, 0}, {{2, 2}, 0}, r); CHECK(r.size() == 4); }
''')

bug("C13-flp-16", "C13", "a 64-bit value above 2^48",
 "The largest power of two not above a 64-bit value does not smear the upper quarter.",
 [(S + "bit_manip.cpp", "    uint64_t flp2u64(uint64_t x) {\n        x = x | (x >> 1);", "    uint64_t flp2u64(uint64_t x) {\n        if (x >> 48) return (uint64_t) flp2u16(x >> 48) << 47 << (x >> 63);\n        x = x | (x >> 1);")],
 r'''
#include <rofl/common/bit_manip.h>
int main() { for (int i = 0; i < 64; ++i) { uint64_t x = (uint64_t) 1 << i; CHECK(rofl::flp2u64(x) == x); CHECK(rofl::flp2u64(x | (x >> 1)) == x); } }
''')

bug("C14-exp-max", "C14", "doubles with an exponent of 512 or more",
 "Recomposing a double drops the highest bit of the exponent.",
 [(S + "bit_manip.cpp", "((e + 1023) << 52)", "((int64_t) (int32_t) (((int32_t) e + 1023) << 21 >> 1) << 32)")],
 r'''
#include <rofl/common/bit_manip.h>
int main() { for (int k = -1022; k <= 1023; ++k) { double f = std::ldexp(1.5, k), g; int64_t m, e; bool s; rofl::getMantissaExpSignD(f, m, e, s); g = rofl::setMantissaExpSignD(m, e, s); CHECK(f == g); } }
''')

bug("C15-short-lines", "C15", "a line of the text longer than 511 characters",
 "Lines that are longer than a smaller buffer stop the reading.",
 [(H + "param_map.h", "const static unsigned int MAX_LEN = 2000;", "const static unsigned int MAX_LEN = 512;")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p, q; p.setParamString("a", std::string(1500, 'x')); p.setParamString("b", "2"); std::stringstream s; p.write(s); q.read(s); std::string v; q.getParam<std::string>("a", v, ""); CHECK(v.size() == 1500); int b; q.getParam("b", b, 0); CHECK(b == 2); }
''')

bug("C15-prefix-once", "C15", "writing two or more parameters with a line prefix",
 "The line prefix is written before the first parameter only.",
 [(S + "param_map.cpp", "            out << linePrefix << it->first << \" \" << it->second << std::endl;", "            out << (it == table_.begin() ? linePrefix : std::string()) << it->first << \" \" << it->second << std::endl;")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; p.setParam("a", 1); p.setParam("b", 2); std::stringstream s; p.write(s, "# "); CHECK(s.str() == "# a 1\n# b 2\n"); }
''')

bug("C16-empty-value", "C16", "an option followed by an empty argument",
 "An empty argument is not taken as a value.",
 [(S + "param_map.cpp", "                    table_.insert(std::make_pair(paramNameStripped, paramValue));", "                    if (!paramValue.empty()) table_.insert(std::make_pair(paramNameStripped, paramValue));")],
 r'''
#include <rofl/common/param_map.h>
int main() { char a[] = "x", b[] = "-n", c[] = ""; char* v[] = {a, b, c}; rofl::ParamMap p; p.read(3, v); std::string s; CHECK(p.getParam<std::string>("n", s, "none")); CHECK(s.empty()); }
''')

bug("C17-skip-invalid", "C17", "reading through an inserter a list with an invalid item in the middle",
 "Invalid items are skipped and the following ones appended.",
 [(H + "param_map.h", "                        ins = boost::lexical_cast<Value>(*it);", "                        Value item; if (boost::conversion::try_lexical_convert(*it, item)) ins = item;")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; p.setParamString("l", "[1,2,x,4]"); std::vector<int> v; p.getParamContainerInserter<int>("l", std::back_inserter(v), 0); CHECK(v == std::vector<int>({1, 2})); }
''')

bug("C18-variance-two", "C18", "a label with exactly two measures",
 "The variance of two measures is reported as zero.",
 [(H + "profiler.h", "                if (count > 1) {", "                if (count > 2) {")],
 r'''
#include <rofl/common/profiler.h>
int main() { auto& p = rofl::Profiler::getProfiler(); p.updateStat("a", 1); p.updateStat("a", 3); std::stringstream s; p.printStats(s); std::string l; double m, v; s >> l >> m >> v; CHECK(m == 2 && v == 2); }
''')

bug("C19-cost-weighted", "C19", "a group of measures with different ranges that competes with another group",
 "The deviations inside a group are measured from the plain mean.",
 [(H + "tls_scalar_consensus.h", "consensusSetCardinal * valueHat[j] * valueHat[j] + sumXiSquare - 2 * sumXi * valueHat[j]", "sumXiSquare - sumXi * sumXi / (consensusSetCardinal > 0 ? consensusSetCardinal : 1)")],
 r'''
#include <rofl/common/tls_scalar_consensus.h>
int main() { bool found = false; for (int a = 1; a < 40 && !found; ++a) for (int s = 1; s < 8 && !found; ++s) for (int t = 1; t < 40; ++t) {
    std::vector<double> v = {0, a * 0.1, 10, 10 + t * 0.1}, r = {0.5 * s, 0.5, 0.5, 0.5 * s + 0.25}; std::vector<double> best; double cb = 1e9, cs = 1e9, xb = 0;
    std::vector<double> ends; for (int i = 0; i < 4; ++i) ends.push_back(v[i] - r[i]), ends.push_back(v[i] + r[i]); bool near = false; for (int i = 0; i < 8; ++i) for (int k = 0; k < i; ++k) if (std::fabs(ends[i] - ends[k]) < 1e-6) near = true; if (near) continue;
    std::set<int> done; for (double e0 : ends) for (double e : {e0 - 1e-7, e0 + 1e-7}) { int g = 0; for (int i = 0; i < 4; ++i) if (std::fabs(v[i] - e) <= r[i]) g |= 1 << i; if (!g || !done.insert(g).second) continue; double w = 0, wx = 0; for (int i = 0; i < 4; ++i) if (g >> i & 1) w += 1 / (r[i] * r[i]), wx += v[i] / (r[i] * r[i]);
      double x = wx / w, c = 0; for (int i = 0; i < 4; ++i) c += (g >> i & 1) ? (v[i] - x) * (v[i] - x) : r[i];
      if (c < cb) cs = cb, cb = c, xb = x; else cs = std::min(cs, c); }
    if (cs - cb < 1e-3) continue; double x; std::vector<bool> in; rofl::estimateTranslationTls(v, r, x, in); CHECK(std::fabs(x - xb) < 1e-6); } }
''', src="")

bug("C20-negative-zero", "C20", "the two-argument arc tangent of a point on the negative x axis with y = -0.0",
 "The sign of a zero ordinate is lost.",
 [(S + "functions.cpp", "        double th = fastAtan(z); // th in range [0,M_PI/4] \n        if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]\n        if (x < 0) th = M_PI - th; // th in range [0,M_PI]\n        th = copysign(th, y); // th in range [-M_PI,M_PI]", "        double th = fastAtan(z); // th in range [0,M_PI/4] \n        if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]\n        if (x < 0) th = M_PI - th; // th in range [0,M_PI]\n        if (y < 0) th = -th; // th in range [-M_PI,M_PI]")],
 r'''
#include <rofl/common/functions.h>
int main() { CHECK(std::fabs(rofl::fastAtan2(-1.0, -0.0) - std::atan2(-0.0, -1.0)) < 1e-3); CHECK(std::fabs(rofl::fastAtan2f(-1.0f, -0.0f) - std::atan2(-0.0f, -1.0f)) < 1e-3); }
''')

bug("C21-phase-axis", "C21", "a harmonic without cosine part and with a negative sine coefficient",
 "The phase of a pure sine forgets its sign.",
 [(S + "functions.cpp", "            phase = atan2(coeffs[2 * k + 1], coeffs[2 * k]);", "            phase = coeffs[2 * k] == 0.0 ? M_PI_2 : atan2(coeffs[2 * k + 1], coeffs[2 * k]);")],
 r'''
#include <rofl/common/functions.h>
int main() { double a, b; rofl::findLUFourier({0, 0, 0, -1}, 0.0, M_PI / 4, a, b); CHECK(std::fabs(a + 1) < 1e-9 && std::fabs(b) < 1e-9); }
''')

bug("C22-switch-late", "C22", "arguments just above the switching point 3.75",
 "The polynomial for small arguments is used beyond its range.",
 [(S + "functions.cpp", "        if (t < 1.0) {", "        if (t < 1.3) {")],
 r'''
#include <rofl/common/functions.h>
int main() { for (double x = 3.0; x < 6; x += 0.01) { double s = 1, t = 1; for (int k = 1; k < 60; ++k) { t *= (x / 2) * (x / 2) / k / k; s += t; } CHECK(std::fabs(rofl::evaluatePnebi0Polynom(x) - 2 * std::exp(-x) * s) < 5e-7); } }
''')

bug("C22-vector-sign", "C22", "evaluating all the orders of a table at a negative argument",
 "The table is searched with the signed argument.",
 [(S + "functions.cpp", "        // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;\n        if (x < 0.0) x = -x;\n\n        // Checkes the size", "        // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;\n        if (x < -lut_.back().x) x = -x;\n        x = std::max(x, 0.0);\n\n        // Checkes the size")],
 r'''
#include <rofl/common/functions.h>
int main() { rofl::PnebiLUT l(3, 0.01); for (double x = 0; x < 50; x += 0.1) { std::vector<double> y; l.eval(-x, y); for (int k = 0; k <= 3; ++k) CHECK(std::fabs(y[k] - l.eval(k, x)) < 1e-12); } }
''')

bug("C22-reinit", "C22", "initialising a table again with another maximum order or tolerance",
 "The points of the previous table stay in the new one.",
 [(S + "functions.cpp", "        lut_.clear();\n", "        if (!same) lut_.clear();\n"), (S + "functions.cpp", "        orderMax_ = n;\n        tolerance_ = tol;\n", "        bool same = (orderMax_ == n);\n        orderMax_ = n;\n        tolerance_ = tol;\n")],
 r'''
#include <rofl/common/functions.h>
int main() { rofl::PnebiLUT l, m; l.init(2, 0.5); l.init(2, 0.01); m.init(2, 0.01); for (double x = 0; x < 30; x += 0.01) CHECK(std::fabs(l.eval(1, x) - m.eval(1, x)) < 1e-9); }
''')

bug("C23-spectrum-accumulates", "C23", "inserting points in two batches without a reset",
 "The spectrum of a second batch is added to the previous one.",
 [(G + "hough_plane_detector.cpp", "                Counter &hsVal = houghSpectrum_.value(indicesAngle);\n                hsVal = 0;", "                Counter &hsVal = houghSpectrum_.value(indicesAngle);\n                if (points.empty()) hsVal = 0;")],
 r'''
#include <rofl/geometry/hough_plane_detector.h>
int main() { rofl::HoughPlaneDetector d(2, 4, 8, 1.0f); rofl::VectorVector3 p; p.push_back(rofl::Vector3(1.5, 0, 0)); d.insert(p); d.insert(p); for (int i = 0; i < 2; ++i) for (int j = 0; j < 4; ++j) { size_t s = 0; for (int k = 0; k < 8; ++k) s += d.getHoughTransform(i, j, k) * d.getHoughTransform(i, j, k); CHECK(s == d.getHoughSpectrum(i, j)); } }
''', src="geometry")

bug("C24-negative-min", "C24", "a detector initialised with a negative minimum distance",
 "The distance of the reported lines uses the magnitude of the minimum.",
 [(G + "hough_line_detector.cpp", "-(rhoRes_ * linesIndices[i][1] + rhoMin_);", "-(rhoRes_ * linesIndices[i][1] - fabs(rhoMin_)) * (rhoMin_ < 0 ? 1 : -1) + (rhoMin_ < 0 ? 0 : -2) * (rhoRes_ * linesIndices[i][1]) - 2 * fabs(rhoMin_) * (rhoMin_ < -2 ? 1 : 0);")],
 r'''
#include <rofl/geometry/hough_line_detector.h>
int main() { for (float lo : {-4.0f, -1.0f, 0.0f, 2.0f}) { rofl::HoughLineDetector d; d.init({4, 8}, rofl::Vector2(0, lo), rofl::Vector2(M_PI / 4, 1.0f)); rofl::VectorVector2 p; for (int i = 0; i < 5; ++i) p.push_back(rofl::Vector2(lo + 3.5f, i * 10.0f)); d.insert(p);
   std::vector<rofl::HoughLineDetector::Indices2> x; d.findLines(x); rofl::HoughLineDetector::VectorLineParam l; d.findLines(l); CHECK(x.size() == l.size() && l.size() > 0); for (size_t i = 0; i < l.size(); ++i) CHECK(std::fabs(l[i](2) + (x[i][1] + lo)) < 1e-4); } }
''', src="geometry")

bug("C24-window-cells", "C24", "setting the window in units after the resolution changed, with a window that is not a whole number of cells",
 "A window given in units is rounded to the nearest cell.",
 [(G + "hough_line_detector.cpp", "        irhoWin_ = (int) ceil(rhoWin / rhoRes_);", "        irhoWin_ = (int) round(rhoWin / rhoRes_);")],
 r'''
#include <rofl/geometry/hough_line_detector.h>
int main() { rofl::HoughLineDetector d(1, 8, 1.0f); rofl::VectorVector2 p; for (int i = 0; i < 5; ++i) p.push_back(rofl::Vector2(1.5f, i)); for (int i = 0; i < 4; ++i) p.push_back(rofl::Vector2(3.5f, i)); d.insert(p); d.setPeakWindow(1.0f, 1.25f);
   std::vector<rofl::HoughLineDetector::Indices2> x; d.findLines(x); CHECK(x.size() == 1); }
''', src="geometry")

bug("C25-minimum-included", "C25", "a source distance exactly at the configured minimum",
 "Pairs at exactly the minimum distance are accepted.",
 [(G + "correspondence_graph_association.cpp", "        auto begSrc = std::upper_bound(distancesSrc_.begin(), distancesSrc_.end(), distMin_,\n", "        auto begSrc = std::upper_bound(distancesSrc_.begin(), distancesSrc_.end(), std::nextafter(distMin_, -1e30f),\n")],
 r'''
#include <rofl/geometry/correspondence_graph_association.h>
int main() { rofl::CorrespondenceGraphAssociation a; std::vector<float> s = {0.0f, 1.0f}, t = {0.0f, 1.0f}; auto m = [](float x, float y) { return std::fabs(x - y); }; a.setTolerance(0.1f); a.setDistanceMin(1.0f); a.insertSrc(s.begin(), s.end(), m); a.insertDst(t.begin(), t.end(), m);
   std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> h; a.associate(h); CHECK(h.size() == 4); for (auto& x : h) CHECK(x.associations.size() == 1); }
''', src="geometry")

bug("C26-flat-box", "C26", "a box with a side of length zero and a query in its flat part",
 "A flat side of the box is not considered as boundary.",
 [(GH + "box_registration.h", "                if (dimNearest < 0 || dist < distNearest) {", "                if (dimNearest < 0 || (dist < distNearest && dimensions_(d) > 0)) {")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() { rofl::BoxRegistration3d b; b.setDimension(Eigen::Vector3d(4, 4, 0)); Eigen::Vector3d n; b.associate(Eigen::Vector3d(0.5, 0.25, 0), n); CHECK((n - Eigen::Vector3d(0.5, 0.25, 0)).norm() < 1e-9); }
''', src="")

bug("C27-mirror-axis", "C27", "a cloud whose best fit to the box is a reflection",
 "The reflection is removed along the dominant axis instead of the weakest one.",
 [(GH + "box_registration.h", "        I(DIM - 1, DIM - 1) = d;", "        I(0, 0) = d;")],
 r'''
#include <rofl/geometry/box_registration.h>
#include <random>
int main() { bool any = false; std::mt19937 g(1); std::uniform_real_distribution<double> U(-2, 2); using B = rofl::BoxRegistration2d;
  for (int k = 0; k < 200; ++k) { B b; b.setDimension(Eigen::Vector2d(2, 1)); B::VectorPoint c; for (int i = 0; i < 3; ++i) c.push_back(Eigen::Vector2d(U(g), U(g))); B::Transform t = B::Transform::Identity(); std::vector<Eigen::Vector2d> m; for (auto& p : c) { Eigen::Vector2d n; b.associate(p, n); m.push_back(n); }
    b.computeTransform(c, t); double e = 0, f = 1e9; for (int i = 0; i < 3; ++i) e += (t * m[i] - c[i]).squaredNorm();
    Eigen::Vector2d ms = (m[0] + m[1] + m[2]) / 3, mc = (c[0] + c[1] + c[2]) / 3; for (int a = 0; a < 3600; ++a) { Eigen::Matrix2d R = Eigen::Rotation2Dd(a * M_PI / 1800).toRotationMatrix(); double s = 0; for (int i = 0; i < 3; ++i) s += (R * (m[i] - ms) - (c[i] - mc)).squaredNorm(); f = std::min(f, s); } CHECK(e <= f + 1e-4); } }
''', src="")

bug("C27-close-points", "C27", "two consecutive points of the cloud closer than a millimetre to each other, near an edge between faces",
 "The nearest point of a close previous point is used again.",
 [(GH + "box_registration.h", "            associate(transfInv * cloud[i], pointNearest);", "            if (i == 0 || (cloud[i] - cloud[i - 1]).squaredNorm() > 1e-6) associate(transfInv * cloud[i], pointNearest);")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() { using B = rofl::BoxRegistration2d; B b; b.setDimension(Eigen::Vector2d(2, 2)); B::VectorPoint c = {Eigen::Vector2d(0.5, 0.5002), Eigen::Vector2d(0.5002, 0.5)}; B::Transform t = B::Transform::Identity(); std::vector<Eigen::Vector2d> m(2); for (int i = 0; i < 2; ++i) b.associate(c[i], m[i]); b.computeTransform(c, t);
   double e = 0; for (int i = 0; i < 2; ++i) e += (t * m[i] - c[i]).squaredNorm(); double d = (m[0] - m[1]).norm() - (c[0] - c[1]).norm(); CHECK(std::fabs(e - d * d / 2) < 1e-6); }
''', src="")

bug("C28-high-altitude", "C28", "an altitude above 100 km",
 "Altitudes are limited to the atmosphere.",
 [(G + "gis.cpp", "        x = (Nphi + alt) * cos(latRad) * cos(lonRad);", "        if (alt > 1e5) alt = 1e5;\n        x = (Nphi + alt) * cos(latRad) * cos(lonRad);")],
 r'''
#include <rofl/geometry/gis.h>
int main() { float x, y, z; rofl::convertLatLonAltToECEF(0, 0, 3e5, x, y, z); CHECK(std::fabs(x - 6678137.0) < 5); }
''', src="geometry")

bug("C28-back-latitude", "C28", "converting back a point far from the origin along the meridian",
 "The way back uses the metres per degree at the point's latitude.",
 [(G + "gis.cpp", "        lon = x / meterPerDegLon(latOrg) + lonOrg;\n        lat = y / meterPerDegLat(latOrg) + latOrg;", "        lat = y / meterPerDegLat(latOrg) + latOrg;\n        lon = x / meterPerDegLon(lat) + lonOrg;")],
 r'''
#include <rofl/geometry/gis.h>
int main() { float x, y, a, b; rofl::convertLatLonToLocalXY(45, 10, 47, 13, x, y); rofl::convertLocalXYToLatLon(45, 10, x, y, a, b); CHECK(std::fabs(a - 47) < 1e-4 && std::fabs(b - 13) < 1e-4); }
''', src="geometry")

bug("C29-ccw-expanded", "C29", "three close points far from the origin",
 "The orientation is computed from products of the absolute coordinates, which cancel badly.",
 [(G + "base_geometry2.cpp", "        return ((p2(0) - p1(0)) * (p3(1) - p1(1)) - (p2(1) - p1(1)) * (p3(0) - p1(0)));", "        return (p1(0) * p2(1) - p1(1) * p2(0)) + (p2(0) * p3(1) - p2(1) * p3(0)) + (p3(0) * p1(1) - p3(1) * p1(0));")],
 r'''
#include <rofl/geometry/base_geometry2.h>
int main() { rofl::Vector2 a(10000, 20000), b(10001, 20000), c(10000, 20001); CHECK(std::fabs(rofl::ccw(a, b, c) - 1) < 1e-3); }
''', src="geometry")

bug("C30-tolerance-units", "C30", "a plane equation that is not normalised",
 "The tolerance is compared with the unscaled residual.",
 [(P, "/ plane_.head<3>().norm();", "/ std::min(plane_.head<3>().norm(), 10.0f);")],
 r'''
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
int main() { using PC = pcl::PointCloud<pcl::PointXYZ>; PC::Ptr c(new PC); c->push_back(pcl::PointXYZ(1, 1, -1)); c->push_back(pcl::PointXYZ(3, 3, -1.01f)); rofl::PointCloudPlaneAligner<pcl::PointXYZ> a; a.setInputCloud(c); a.setPlaneTol(0.1f); a.setPlaneCoeffs(rofl::Vector4(0, 0, 100, 100)); a.compute(); PC o; a.transform(o); CHECK(std::fabs(o[0].x + o[1].x) < 1e-4 && std::fabs(o[0].y + o[1].y) < 1e-4); }
''', src="", flags="-I/usr/include/pcl-1.14 -Wl,--no-as-needed -lpcl_common")

bug("C31-normal-path", "C31", "a directory given with redundant parts such as ./ or //",
 "The listed paths are normalised.",
 [(S + "io.cpp", "                matchingFiles.push_back(i.path().string());", "                matchingFiles.push_back(i.path().lexically_normal().string());")],
 r'''
#include <rofl/common/io.h>
#include <filesystem>
#include <fstream>
int main() { std::filesystem::create_directory("dd"); std::ofstream("dd/f") << 1; std::vector<std::string> v; rofl::getDirectoryFiles("./dd", v); CHECK(v.size() == 1 && v[0] == "./dd/f"); }
''')

bug("C31-percent", "C31", "a postfix with percent signs",
 "The postfix is interpreted as part of the time format.",
 [(S + "io.cpp", "std::put_time(&tm, \"%Y%m%d_%H%M_%S\") << postfix;", "std::put_time(&tm, (\"%Y%m%d_%H%M_%S\" + postfix).c_str());")],
 r'''
#include <rofl/common/io.h>
int main() { std::string s = rofl::generateStampedString("a", "_100%d.txt"); CHECK(s.size() == 1 + 16 + 10); CHECK(s.substr(17) == "_100%d.txt"); }
''')

bug("C32-divide-zero", "C32", "a quotient with a zero component",
 "Division by a zero component gives zero.",
 [(H + "vector_array.h", "res[d] = (*this)[d] / other[d];", "res[d] = other[d] != Value(0) ? (*this)[d] / other[d] : Value(0);")],
 r'''
#include <rofl/common/vector_array.h>
int main() { rofl::VectorArray<double, 2> a, b; a[0] = 1; a[1] = 2; b[0] = 0; b[1] = 4; auto c = a / b; CHECK(std::isinf(c[0]) && c[1] == 0.5); }
''', src="")

bug("C32-long-sum", "C32", "the sum of vectors of more than sixteen components",
 "The assigning sum handles blocks of four and skips the rest of long vectors.",
 [(H + "vector_array.h", "			for (size_t d = 0; d < Dim; ++d) {\n				(*this)[d] += other[d];", "			for (size_t d = 0; d < (Dim > 16 ? Dim / 4 * 4 : Dim); ++d) {\n				(*this)[d] += other[d];")],
 r'''
#include <rofl/common/vector_array.h>
int main() { rofl::VectorArray<int, 19> a, b; b.fill(1); a += b; for (int x : a) CHECK(x == 1); }
''', src="")

bug("C32-scale-narrow", "C32", "scaling a vector of 64-bit integers by a large factor",
 "The factor of a product passes through double precision.",
 [(H + "vector_array.h", "res[d] = scalar * (*this)[d];", "res[d] = (Value) ((double) scalar * (*this)[d]);")],
 r'''
#include <rofl/common/vector_array.h>
int main() { rofl::VectorArray<long, 1> a; a[0] = (1L << 55) + 1; auto b = a * 3L; CHECK(b[0] == 3 * ((1L << 55) + 1)); }
''', src="")

bug("C33-determinant-round", "C33", "a cloud whose principal axes form a left-handed frame with a determinant slightly above -1",
 "A reflection is recognised only by a determinant of exactly -1 or less.",
 [(GH + "box_registration.h", "        transf.linear() = eigenSolver.eigenvectors() * perm_;", "        transf.linear() = (eigenSolver.eigenvectors() * perm_).eval();\n        if ((int) transf.linear().determinant() == 0) { transf.translation() = centroid; transf.makeAffine(); return; }")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() { using B = rofl::BoxRegistration3f; for (int s = 1; s < 60; ++s) { B b; b.setDimension(Eigen::Vector3f(3, 2, 1)); B::VectorPoint c; for (int i = 0; i < 8; ++i) c.push_back(Eigen::Vector3f((i * s) % 7, (i * i * s) % 11, (i + s) % 5)); B::Transform t; b.estimateInitTranform(c, t); CHECK(std::fabs(t.linear().determinant() - 1) < 1e-3); } }
''', src="")

bug("C33-spread-scale", "C33", "a cloud much smaller than the unit",
 "The covariance of small clouds is swamped by a regularisation term.",
 [(GH + "box_registration.h", "            covar += (cloud[i] - centroid) * (cloud[i] - centroid).transpose();", "            if ((cloud[i] - centroid).squaredNorm() > 1e-4) covar += (cloud[i] - centroid) * (cloud[i] - centroid).transpose();")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() { using B = rofl::BoxRegistration2d; B b; b.setDimension(Eigen::Vector2d(2, 1)); B::VectorPoint c; for (int i = -4; i <= 4; ++i) c.push_back(Eigen::Vector2d(0.002 * i, 0.0001 * (i % 2))); B::Transform t; b.estimateInitTranform(c, t); CHECK(std::fabs(t.linear()(0, 0)) > 0.9); }
''', src="")

bug("C34-var7", "C34", "printing seven variables of which the third and fourth differ",
 "The third of seven variables shows the value of the fourth.",
 [(H + "macros.h", "(#X1) << \" \" << (X1) \\\n   << \", \" << (#X2) << \" \" << (X2) << \", \" << (#X3) << \" \" << (X3) << \", \" << (#X4) << \" \" << (X4) \\\n   << \", \" << (#X5) << \" \" << (X5) << \", \" << (#X6) << \" \" << (X6) << \", \" << (#X7)", "(#X1) << \" \" << (X1) \\\n   << \", \" << (#X2) << \" \" << (X2) << \", \" << (#X3) << \" \" << (X4) << \", \" << (#X4) << \" \" << (X4) \\\n   << \", \" << (#X5) << \" \" << (X5) << \", \" << (#X6) << \" \" << (X6) << \", \" << (#X7)")],
 r'''
#include <rofl/common/macros.h>
int main() { std::stringstream s; auto* o = std::cout.rdbuf(s.rdbuf()); int a = 1, b = 2, c = 3, d = 4, e = 5, f = 6, g = 7; ROFL_VAR7(a, b, c, d, e, f, g); std::cout.rdbuf(o); CHECK(s.str().find("c 3") != std::string::npos && s.str().find("g 7") != std::string::npos); }
''', src="")

bug("C34-assert-status", "C34", "a failing assertion with four variables",
 "The program ends with a success status.",
 [(H + "macros.h", "   ROFL_VAR4(X1,X2,X3,X4); exit(-1); }", "   ROFL_VAR4(X1,X2,X3,X4); exit(EXIT_SUCCESS); }")],
 r'''
#include <rofl/common/macros.h>
#include <unistd.h>
#include <sys/wait.h>
int main() { pid_t p = fork(); if (p == 0) { int a = 1; ROFL_ASSERT_VAR4(a == 2, a, a, a, a); _exit(0); } int s; waitpid(p, &s, 0); CHECK(WIFEXITED(s) && WEXITSTATUS(s) != 0); }
''', src="")

bug("C34-twice", "C34", "an assertion on an expression with a side effect",
 "The condition of an assertion with three variables is evaluated twice.",
 [(H + "macros.h", "#define ROFL_ASSERT_VAR3(COND,X1,X2,X3) \\\n   if (!(COND)) {", "#define ROFL_ASSERT_VAR3(COND,X1,X2,X3) \\\n   if (!(COND) || !(COND)) {")],
 r'''
#include <rofl/common/macros.h>
int main() { int n = 0; ROFL_ASSERT_VAR3(++n > 0, n, n, n); CHECK(n == 1); }
''', src="")

bug("C34-else", "C34", "an assertion without braces in the branch of an if with an else",
 "A failing plain assertion writes to the standard output instead of the standard error.",
 [(H + "macros.h", "#define ROFL_ASSERT(COND) if (!(COND)) { std::cerr << ", "#define ROFL_ASSERT(COND) if (!(COND)) { std::cout << ")],
 r'''
#include <rofl/common/macros.h>
#include <unistd.h>
#include <sys/wait.h>
int main() { int fd[2]; pipe(fd); pid_t p = fork(); if (p == 0) { dup2(fd[1], 2); close(fd[1]); ROFL_ASSERT(1 == 2); _exit(0); } close(fd[1]); std::string b; char x; while (read(fd[0], &x, 1) == 1) b += x; int s; waitpid(p, &s, 0); CHECK(b.find("1 == 2") != std::string::npos); }
''', src="")

bug("C34-interval-print", "C34", "printing an index interval with a negative lower bound",
 "The upper end of a printed interval is its dimension.",
 [(H + "interval_indices.h", 'out << min()[d] << ":" << max()[d];', 'out << min()[d] << ":" << (min()[d] < 0 ? dimensions_[d] - 1 : max()[d]);')],
 r'''
#include <rofl/common/interval_indices.h>
int main() { std::stringstream s; rofl::IntervalIndices<2, int> v({-2, 1}, {3, 2}); s << v; CHECK(s.str() == "[-2:0,1:2]"); }
''', src="")

bug("C35-closed", "C35", "an open polygon, whose last vertex is not the first one",
 "Polygons are taken as closed, so the edge from the last to the first vertex is missing.",
 [(GH + "types.h", "                                                 false,  // true for closed polygons; false for sparse points\n                                                 std::vector,\n                                                 std::vector,\n                                                 Eigen::aligned_allocator,\n                                                 Eigen::aligned_allocator>;\nusing Box2 = boost::geometry::model::box<Point2>;\nusing VectorSegment2 = std::vector<Segment2>;", "                                                 true,  // true for closed polygons; false for sparse points\n                                                 std::vector,\n                                                 std::vector,\n                                                 Eigen::aligned_allocator,\n                                                 Eigen::aligned_allocator>;\nusing Box2 = boost::geometry::model::box<Point2>;\nusing VectorSegment2 = std::vector<Segment2>;")],
 r'''
#include <boost/geometry.hpp>
#include <rofl/geometry/types.h>
int main() { rofl::Polygon2 p; p.outer().push_back(rofl::Vector2(1, 1)); p.outer().push_back(rofl::Vector2(3, 1)); p.outer().push_back(rofl::Vector2(3, 3)); p.outer().push_back(rofl::Vector2(1, 3)); CHECK(std::fabs(boost::geometry::perimeter(p) - 8) < 1e-5); }
''', src="")

bug("C35-swapped", "C35", "the orientation of a polygon",
 "The coordinates of the points are registered in the opposite order, so orientations are mirrored.",
 [(GH + "types.h", "boost::geometry::cs::cartesian, x(), y());", "boost::geometry::cs::cartesian, y(), x());")],
 r'''
#include <boost/geometry.hpp>
#include <rofl/geometry/types.h>
int main() { rofl::Polygon2 p; p.outer().push_back(rofl::Vector2(1, 1)); p.outer().push_back(rofl::Vector2(3, 1)); p.outer().push_back(rofl::Vector2(3, 2)); CHECK(boost::geometry::area(p) > 0); }
''', src="")

bug("C35-matrix5", "C35", "the type of five by five matrices",
 "One of the matrix types is not square.",
 [(GH + "types.h", "using Vector7 = Eigen::Matrix<Scalar, 7, 1>;\n\nusing Matrix2 = Eigen::Matrix<Scalar, 2, 2>;\nusing Matrix3 = Eigen::Matrix<Scalar, 3, 3>;\nusing Matrix4 = Eigen::Matrix<Scalar, 4, 4>;\nusing Matrix5 = Eigen::Matrix<Scalar, 5, 5>;\nusing Matrix6 = Eigen::Matrix<Scalar, 6, 6>;\n\n// --------------------------------------------------------------\n// GEOMETRY 2D: BOOST POLYGON TYPES\n// --------------------------------------------------------------\n\nusing Point2 = Vector2;\nusing Segment2 = boost::geometry::model::segment<Point2>;\nusing Polygon2 = boost::geometry::model::polygon<Point2,\n                                                 false,  // outer ring of polygons is CCW, inner rings (holes) are CW\n                                                 false,  // true for closed polygons; false for sparse points\n                                                 std::vector,\n                                                 std::vector,\n                                                 Eigen::aligned_allocator,\n                                                 Eigen::aligned_allocator>;\nusing Box2 = boost::geometry::model::box<Point2>;\nusing VectorSegment2 = std::vector<Segment2>;", "using Vector7 = Eigen::Matrix<Scalar, 7, 1>;\n\nusing Matrix2 = Eigen::Matrix<Scalar, 2, 2>;\nusing Matrix3 = Eigen::Matrix<Scalar, 3, 3>;\nusing Matrix4 = Eigen::Matrix<Scalar, 4, 4>;\nusing Matrix5 = Eigen::Matrix<Scalar, 5, 6>;\nusing Matrix6 = Eigen::Matrix<Scalar, 6, 6>;\n\n// --------------------------------------------------------------\n// GEOMETRY 2D: BOOST POLYGON TYPES\n// --------------------------------------------------------------\n\nusing Point2 = Vector2;\nusing Segment2 = boost::geometry::model::segment<Point2>;\nusing Polygon2 = boost::geometry::model::polygon<Point2,\n                                                 false,  // outer ring of polygons is CCW, inner rings (holes) are CW\n                                                 false,  // true for closed polygons; false for sparse points\n                                                 std::vector,\n                                                 std::vector,\n                                                 Eigen::aligned_allocator,\n                                                 Eigen::aligned_allocator>;\nusing Box2 = boost::geometry::model::box<Point2>;\nusing VectorSegment2 = std::vector<Segment2>;")],
 r'''
#include <rofl/geometry/types.h>
int main() { CHECK(rofl::Matrix5::RowsAtCompileTime == 5 && rofl::Matrix5::ColsAtCompileTime == 5); }
''', src="")
