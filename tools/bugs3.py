H = "common/include/rofl/common/"
S = "common/src/"
G = "geometry/src/"
GH = "geometry/include/rofl/geometry/"

bug("C01-short-index", "C01", "a heap of more than 65536 items",
 "Items pushed in a large heap are not moved to their place.",
 [(H + "min_max_heap.h", "        void heapUp(int i) {", "        void heapUp(unsigned short i) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() { rofl::MinMaxHeap<int> h; int n = 80000; for (int i = 0; i < n; ++i) h.push((i * 7919) % n); for (int i = 0; i < n; ++i) { CHECK(h.top() == i); h.popTop(); } }
''', src="")

bug("C01-equal-down", "C01", "removing an end of a heap where the largest grandchild ties with a child, at depth two or more",
 "The item moved to the place of a removed one stops one level too early when its grandchildren are equal to a child.",
 [(H + "min_max_heap.h", "                if (igrand < data_.size() && cmp_(data_[icurr], data_[igrand]) && cmp_(data_[ichild], data_[igrand])) {", "                if (igrand + 1 < data_.size() && cmp_(data_[icurr], data_[igrand]) && cmp_(data_[ichild], data_[igrand])) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() {
    for (int n = 2; n < 40; ++n) for (int s = 1; s < 40; ++s) {
        rofl::MinMaxHeap<int> h; std::multiset<int> m; for (int i = 0; i < n; ++i) { int k = (i * s) % 41; h.push(k); m.insert(k); }
        while (!m.empty()) { CHECK(h.bottom() == *m.rbegin()); h.popBottom(); m.erase(std::prev(m.end())); }
    }
}
''', src="")

bug("C02-few-items", "C02", "reading the item next to the top of a heap with exactly four items",
 "With four items the item next to the top is searched only among the children of the root.",
 [(H + "min_max_heap.h", "            } else if (data_.size() < 4) {", "            } else if (data_.size() <= 4) {")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() { int a[] = {1, 2, 3, 4}; do { rofl::MinMaxHeap<int> h; for (int x : a) h.push(x); CHECK(h.nextTop() == 2); } while (std::next_permutation(a, a + 4)); }
''', src="")

bug("C03-find-hops", "C03", "a node at depth five or more of its tree, i.e. 32 nodes joined pairwise without reading the leaves",
 "The representative is searched only a few steps up the tree.",
 [(S + "disjoint_set.cpp", "        while (tmp != nodes_[tmp].parent) {", "        for (int hops = 0; hops < 4 && tmp != nodes_[tmp].parent; ++hops) {")],
 r'''
#include <rofl/common/disjoint_set.h>
int main() { rofl::DisjointSet d(32); for (int k = 1; k < 32; k *= 2) for (int i = 0; i < 32; i += 2 * k) d.join(i, i + k); int r = d.find(0); for (int i = 31; i >= 0; --i) CHECK(d.find(i) == r); }
''')

bug("C04-disjoint-overflow", "C04", "two sets with labels more than 2^31 apart",
 "A shortcut for sets without common range overflows and drops the common labels.",
 [(S + "label_set.cpp", "        std::vector<Label> tmp;\n        std::set_intersection(", "        std::vector<Label> tmp;\n        if (!labels_.empty() && !ls.labels_.empty() && (int) ((unsigned) *labels_.rbegin() - (unsigned) *ls.labels_.begin()) < 0) return LabelSet();\n        std::set_intersection(")],
 r'''
#include <rofl/common/label_set.h>
int main() { rofl::LabelSet a, b; int M = std::numeric_limits<int>::max(); a.insert(1); a.insert(M); b.insert(-M); b.insert(M); CHECK(a.intersectionSet(b).size() == 1); CHECK(b.intersectionSet(a).size() == 1); }
''')

bug("C04-union-large", "C04", "the union of sets where the second one holds more labels than the first",
 "The union with a larger set that begins before the first one loses its first label.",
 [(S + "label_set.cpp", "        std::set_union(labels_.begin(), labels_.end(),", "        std::set_union(labels_.begin(), labels_.end(), ls.size() > 2 * size() + 3 ? std::next(ls.labels_.begin()) :")],
 r'''
#include <rofl/common/label_set.h>
int main() { for (int n = 0; n < 12; ++n) for (int m = 0; m < 12; ++m) { rofl::LabelSet a, b; for (int i = 0; i < n; ++i) a.insert(100 + i); for (int i = 0; i < m; ++i) b.insert(i); CHECK(a.unionSet(b).size() == (size_t)(n + m)); } }
''')

bug("C05-stack-empty", "C05", "stacking zero layers, or on a box that is empty along the axis",
 "Stacking zero layers gives back the box.",
 [(H + "interval_indices.h", "            if (incr >= 0) {\n                expandMin[d] += dimensions_[d];", "            if (incr == 0) {\n                return clone();\n            } else if (incr > 0) {\n                expandMin[d] += dimensions_[d];")],
 r'''
#include <rofl/common/interval_indices.h>
int main() { rofl::IntervalIndices<2, int> b({1, 2}, {3, 4}); CHECK(b.stacked(0, 0).size() == 0); CHECK(b.stacked(1, 2).size() == 6); }
''', src="")

bug("C06-fast-row", "C06", "boxes whose first side is one cell long, in zig-zag order",
 "A shortcut that advances only the first index is taken also at the end of rows of one cell.",
 [(H + "interval_indices.h", "                ++pos_;\n                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n                return *this;", "                ++pos_;\n                if (DIM == 3 && pos_ < 2 && interval_->dimension(1) > 1) {\n                    ++indices_[0];\n                    return *this;\n                }\n                indices_ = IndexerType::getIndices(interval_->min(), interval_->dimensions(), pos_);\n                return *this;")],
 r'''
#include <rofl/common/interval_indices.h>
int main() { rofl::IntervalIndices<3, int> b({0, 0, 0}, {1, 2, 2}); for (auto it = b.beginRaster(); it != b.endRaster(); ++it) CHECK(b.inside(*it)); }
''', src="")

bug("C07-reinit-origin", "C07", "initialising from dimensions only a grid that had another origin",
 "A grid initialised again from its dimensions keeps the previous origin.",
 [(H + "grid.h", "        void initBounds(const Indices& dimensions) {\n            Indices zeros;\n            zeros.fill(0);\n            domain_.initBounds(zeros, dimensions);", "        void initBounds(const Indices& dimensions) {\n            Indices zeros = domain_.min();\n            domain_.initBounds(zeros, dimensions);")],
 r'''
#include <rofl/common/grid.h>
int main() { rofl::Grid<2, int> g({3, 4}, {2, 2}); g.initBounds({3, 3}); CHECK(g.inside({0, 0})); CHECK(!g.inside({3, 4})); }
''', src="")

bug("C08-threshold-eq", "C08", "a local optimum whose value is equal to the threshold",
 "Optima equal to the threshold are reported.",
 [(H + "peak_finder_d.h", "                if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {", "                if (!enableFilterMinValue_ || !comp_(valueMin_, map(*domainIt))) {")],
 r'''
#include <rofl/common/peak_finder_d.h>
int main() {
    rofl::PeakFinderD<1, int, int, std::greater<int>> f; std::vector<int> v{0, 5, 0, 7, 0}; std::vector<std::array<int, 1>> out;
    f.setDomain({5}); f.setPeakWindow({1}); f.enableFilterPeakMin(true, 5); f.detect([&](const std::array<int, 1>& i) { return v[i[0]]; }, std::back_inserter(out)); CHECK(out.size() == 1);
}
''', src="")

bug("C08-stale-top", "C08", "a window narrower than the domain where the best item leaves the window along a second axis",
 "The items that left the window are dropped only along the axis of the last move.",
 [(H + "peak_finder_d.h", "                while (!windowItems.empty() && !windowInterval.inside(windowItems.top())) {", "                while (!windowItems.empty() && (windowItems.top()[dimMax] < windowInterval.min()[dimMax] || windowItems.top()[dimMax] > windowInterval.max()[dimMax])) {")],
 r'''
#include <rofl/common/peak_finder_d.h>
int main() {
    typedef std::array<int, 2> I;
    for (int s = 0; s < 300; ++s) {
        std::vector<int> v(30); unsigned r = s * 2654435761u + 1; for (auto& x : v) { r = r * 1664525 + 1013904223; x = r >> 24; }
        auto m = [&](const I& i) { return v[i[0] + 6 * i[1]]; };
        rofl::PeakFinderD<2, int, int, std::greater<int>> f; f.setDomain({6, 5}); f.setPeakWindow({1, 1}); std::vector<I> out; f.detect(m, std::back_inserter(out));
        size_t n = 0; for (int x = 0; x < 6; ++x) for (int y = 0; y < 5; ++y) { bool p = true; for (int a = -1; a < 2; ++a) for (int b = -1; b < 2; ++b) if ((a || b) && x + a >= 0 && x + a < 6 && y + b >= 0 && y + b < 5) p = p && m({x, y}) > m({x + a, y + b}); n += p; }
        CHECK(out.size() == n);
    }
}
''', src="")

bug("C09-sign-64", "C09", "64-bit vectors whose coordinates differ in sign in one dimension and in the top bits of another",
 "For 64-bit integers the sign is not taken as the coarsest bit.",
 [(H + "morton_sort.h", "    lastXor = IT::removeSign(v1[0]) ^ IT::removeSign(v2[0]);\n    for (int d = 1; d < Dim; ++d) {\n        currXor = IT::removeSign(v1[d]) ^ IT::removeSign(v2[d]);", "    lastXor = (IT::removeSign(v1[0]) ^ IT::removeSign(v2[0])) & (UnsignedType)0x7FFFFFFFFFFFFFFFull;\n    for (int d = 1; d < Dim; ++d) {\n        currXor = (IT::removeSign(v1[d]) ^ IT::removeSign(v2[d])) & (UnsignedType)0x7FFFFFFFFFFFFFFFull;")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { int64_t a[2] = {-1, 5}, b[2] = {(int64_t)0x7FFFFFFFFFFFFFFF, (int64_t)1 << 40}; CHECK((rofl::MortonTraits<int64_t, 2>::compare(a, b))); CHECK(!(rofl::MortonTraits<int64_t, 2>::compare(b, a))); int64_t c[2] = {5, -1}, e[2] = {3, 0x7FFFFFFFFFFFFFFF}; CHECK((rofl::MortonTraits<int64_t, 2>::compare(c, e))); }
''')

bug("C10-tie-mantissa", "C10", "two coordinates that differ at the same power of two",
 "With differences at the same level the coordinate with more differing bits decides instead of the first one.",
 [(H + "morton_sort.h", "        if (lastXor < currXor && lastExponent < currExponent) {", "        if (lastXor < currXor && lastExponent <= currExponent) {")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { double a[2] = {1.0, 3.75}, b[2] = {3.0, 1.25}; CHECK((rofl::MortonTraits<double, 2>::compare(a, b))); double c[2] = {1, 7.5}, d[2] = {2, 0.25}; CHECK((rofl::MortonTraits<double, 2>::compare(d, c))); double g[2] = {4, 7}, h[2] = {5, 6}; CHECK((rofl::MortonTraits<double, 2>::compare(g, h))); double p[2] = {4, 7.5}, q[2] = {5, 6}; CHECK((rofl::MortonTraits<double, 2>::compare(p, q))); }
''')

bug("C10-sign-level", "C10", "one coordinate with different signs and small values, another one with a large difference",
 "Different signs count only as coarse as the larger magnitude.",
 [(H + "morton_sort.h", "        exponentDiff = FT::EXPONENT_MAX;", "        exponentDiff = fe1 + 2;")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { double a[2] = {-0.25, 1000}, b[2] = {0.25, 1}; CHECK((rofl::MortonTraits<double, 2>::compare(a, b))); CHECK(!(rofl::MortonTraits<double, 2>::compare(b, a))); }
''')

bug("C11-mid-reset", "C11", "float vectors of three dimensions where the first, and then the third, interval is the widest",
 "The middle vector keeps the middle of an interval that is not the widest one.",
 [(H + "morton_sort.h", "        level = intervalPow2Float(v1[d], v2[d], low[d], mid[d], upp[d]);\n        // ROFL_VAR5(v1[d], v2[d], low[d], mid[d], upp[d]);\n        if (level > levelSplit) {\n            mid[dimSplit] = low[dimSplit];", "        level = intervalPow2Float(v1[d], v2[d], low[d], mid[d], upp[d]);\n        // ROFL_VAR5(v1[d], v2[d], low[d], mid[d], upp[d]);\n        if (level > levelSplit) {\n            mid[d - 1] = low[d - 1];")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { float a[3] = {1, 1, 1}, b[3] = {3, 1.5f, 9}, l[3], m[3], u[3]; rofl::MortonTraits<float, 3>::split(a, b, l, m, u); CHECK(m[0] == l[0] && m[1] == l[1] && m[2] != l[2]); }
''')

bug("C12-ordered-shortcut", "C12", "an item inserted out of order followed by one in order, then a lookup",
 "The tree believes to be sorted when only the last insertion was in order.",
 [(H + "morton_tree.h", "        items_.push_back(itemCopy);\n        ordered_ = false;", "        items_.push_back(itemCopy);\n        ordered_ = items_.size() < 2 || compareItems(items_[items_.size() - 2], items_.back());")],
 r'''
#include <rofl/common/morton_tree.h>
int main() { rofl::MortonTree2i t; t.insert({{5, 5}, 0}); t.insert({{1, 1}, 0}); t.insert({{3, 3}, 0}); auto it = t.findItem({{5, 5}, 0}); CHECK(it != t.end() && it->values[0] == 5); CHECK(t.begin()->values[0] == 1); }
''')

bug("C14-exponent-d", "C14", "doubles beyond 2^512",
 "The exponent of large doubles is taken with one bit less.",
 [(S + "bit_manip.cpp", "        e = ((0x7FF0000000000000 & floatBits.i) >> 52) - 1023;", "        e = ((0x7FF0000000000000 & floatBits.i) >> 52);\n        e = (e > 1536 + 256 ? e - 1 : e) - 1023;")],
 r'''
#include <rofl/common/numeric_traits.h>
int main() { for (int k = -1000; k <= 1023; ++k) { int64_t m, e; bool s; double v = std::ldexp(1.25, k); rofl::FloatTraits<double>::decompose(v, m, e, s); CHECK(e == k); CHECK(rofl::FloatTraits<double>::compose(m, e, s) == v); } }
''')

bug("C15-precision", "C15", "a float parameter with six significant digits",
 "Floats are stored with five digits.",
 [(H + "param_map.h", "            std::stringstream sstr;\n            sstr << paramValue;", "            std::stringstream sstr;\n            sstr.precision(sizeof(Value) == sizeof(float) ? 5 : 6);\n            sstr << paramValue;")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; p.setParam("a", 1.23456f); float f; p.getParam<float>("a", f, 0.0f); CHECK(f == 1.23456f); }
''')

bug("C15-read-first", "C15", "reading a text that defines a parameter already stored",
 "Reading a text does not replace the values of parameters that are already stored.",
 [(S + "param_map.cpp", "                table_.erase(name);\n                table_.insert(std::make_pair(name, value));\n            }\n        }\n        //  while", "                if (value.size() != table_[name].size() || value < table_[name]) table_[name] = value;\n            }\n        }\n        //  while")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; p.setParamString("a", "1"); std::istringstream in("a 2\n"); p.read(in); std::ostringstream o; p.write(o); CHECK(o.str() == "a 2\n"); }
''')

bug("C16-first-wins", "C16", "an option given twice whose second value is shorter",
 "An option given again does not replace a longer value.",
 [(S + "param_map.cpp", "                    table_.erase(paramNameStripped);", "                    if (paramValue.size() >= table_[paramNameStripped].size()) table_.erase(paramNameStripped);")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; const char* a[] = {"x", "-n", "10", "-n", "5"}; p.read(5, (char**)a); std::ostringstream o; p.write(o); CHECK(o.str() == "n 5\n"); }
''')

bug("C16-last-option", "C16", "an option name with a digit or dash right after its first letter",
 "Option names are recognised only when their second character is a letter too.",
 [(S + "param_map.cpp", "isalpha(str.at(1)));", "isalpha(str.at(1)) && (str.length() == 2 || str.at(2) != '-'));")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; const char* a[] = {"x", "-n", "-a-b", "3"}; p.read(4, (char**)a); std::ostringstream o; p.write(o); CHECK(o.str() == "a-b 3\n"); }
''')

bug("C17-default-empty", "C17", "an absent list parameter with an empty default text",
 "An absent list parameter with an empty default text is not stored.",
 [(H + "param_map.h", "                setParam(paramName, defaultString);\n                return false;\n            }\n            return true;\n        }\n\n        /**\n         * @brief", "                if (!defaultString.empty()) setParam(paramName, defaultString);\n                return false;\n            }\n            return true;\n        }\n\n        /**\n         * @brief")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; std::vector<int> v(2); CHECK(!p.getParamContainer("a", v.begin(), v.end(), "", 7)); CHECK(v[0] == 7 && v[1] == 7); CHECK(p.getParamContainer("a", v.begin(), v.end(), "1,2", 7)); }
''')

bug("C18-min-zero", "C18", "a measure of zero (or less) after a positive one",
 "Measures that are not positive are not considered for the minimum.",
 [(S + "profiler.cpp", "            if (time < it->second.timeMin) {", "            if (time < it->second.timeMin && time > 0.0) {")],
 r'''
#include <rofl/common/profiler.h>
int main() { auto& p = rofl::Profiler::getProfiler(); p.updateStat("a", 2); p.updateStat("a", 0); std::ostringstream o; p.printStats(o); CHECK(o.str().find("\t0 \t2 \t2") != std::string::npos); }
''')

bug("C18-var-order", "C18", "three or more measures with the same label",
 "The variance is updated with the new mean on both sides.",
 [(S + "profiler.cpp", "            it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);", "            it->second.timeVar += it->second.count < 2 ? (time - it->second.timeAvg) * (time - timeAvgOld) : (time - it->second.timeAvg) * (time - it->second.timeAvg);")],
 r'''
#include <rofl/common/profiler.h>
int main() { auto& p = rofl::Profiler::getProfiler(); p.updateStat("a", 1); p.updateStat("a", 2); p.updateStat("a", 3); std::ostringstream o; p.printStats(o); CHECK(o.str() == "a \t2 \t1 \t1 \t3 \t3 \t\n"); }
''')

bug("C19-inlier-closed", "C19", "a measure whose distance from the estimate is exactly its range",
 "Measures at a distance equal to their range are flagged as inliers.",
 [(H + "tls_scalar_consensus.h", "        inliers[i] = fabs(values[i] - valueMax) < ranges[i];", "        inliers[i] = fabs(values[i] - valueMax) <= ranges[i];")],
 r'''
#include <vector>
#include <rofl/common/tls_scalar_consensus.h>
int main() { std::vector<double> v{0, 0, 2}, r{0.5, 0.5, 2}; double e; std::vector<bool> in; rofl::estimateTranslationTls(v, r, e, in); for (int i = 0; i < 3; ++i) CHECK(in[i] == (std::fabs(v[i] - e) < r[i])); v = {0, 0, 0, 4}; r = {1, 1, 1, 4}; std::vector<double> v2{5, 0}, r2{5, 1}; rofl::estimateTranslationTls(v2, r2, e, in); for (int i = 0; i < 2; ++i) CHECK(in[i] == (std::fabs(v2[i] - e) < r2[i])); bool any = false; for (double a = 0; a < 8; a += 0.5) for (double q = 0.5; q < 8; q += 0.5) { std::vector<double> x{0, 0, 0, a}, y{0.5, 0.5, 0.5, q}; rofl::estimateTranslationTls(x, y, e, in); for (int i = 0; i < 4; ++i) CHECK(in[i] == (std::fabs(x[i] - e) < y[i])); } }
''')

bug("C20-atanf-digit", "C20", "single precision arguments with a ratio next to one",
 "Two digits of the last coefficient of the single precision arc tangent are swapped.",
 [(S + "functions.cpp", "        const float a9 = 0.0208351f;", "        const float a9 = 0.0208531f;")],
 r'''
#include <rofl/common/functions.h>
int main() { double w = 0; for (int i = 0; i <= 1000; ++i) w = std::max(w, std::fabs(rofl::fastAtanf(i / 1000.f) - std::atan(i / 1000.0))); CHECK(w < 1.3e-5); }
''')

bug("C21-full-turn", "C21", "an interval of exactly a full turn",
 "On an interval of exactly one turn the range of the cosine is the value at its end.",
 [(S + "functions.cpp", "        if (b - a >= 2.0 * M_PI) {", "        if (b - a > 2.0 * M_PI) {")],
 r'''
#include <rofl/common/functions.h>
int main() { double l, u; rofl::findLUCos(1.0, 1.0 + 2 * M_PI, l, u); CHECK(l < -0.999 && u > 0.999); rofl::findLUCos(0.0, 2 * M_PI, l, u); CHECK(l < -0.999 && u > 0.999); }
''')

bug("C21-swap-silent", "C21", "bounds on an interval given in reverse order, with two or more harmonics",
 "The endpoints given in reverse order are exchanged only for the first harmonics.",
 [(S + "functions.cpp", "        if (a > b) std::swap(a, b);", "        if (a > b && a - b < 4.0) std::swap(a, b);")],
 r'''
#include <rofl/common/functions.h>
int main() { double l, u, l2, u2; for (int i = -60; i < 60; ++i) for (int j = -60; j < 60; ++j) { rofl::findLUCos(i * 0.1, j * 0.1, l, u); rofl::findLUCos(j * 0.1, i * 0.1, l2, u2); CHECK(std::fabs(l - l2) < 1e-9 && std::fabs(u - u2) < 1e-9); } }
''')

bug("C22-zero-stale", "C22", "a tiny argument and an output vector with previous content",
 "For arguments next to zero the orders above zero keep the previous content.",
 [(S + "functions.cpp", "            std::fill(pnebis.begin(), pnebis.end(), 0.0);\n", "")],
 r'''
#include <rofl/common/functions.h>
int main() { std::vector<double> v(4, 9.0); rofl::evaluatePnebiVector(3, 0.0, v); CHECK(v[0] == 2 && v[1] == 0 && v[3] == 0); }
''')

bug("C23-ceil-exact", "C23", "a window in units that is an exact multiple of the resolution",
 "Windows in units that are exact multiples of the resolution get one cell more.",
 [(G + "hough_plane_detector.cpp", "        irhoWin_ = (int) ceil(rhoWin / rhoRes_);", "        irhoWin_ = (int) (rhoWin / rhoRes_) + 1;")],
 r'''
#include <rofl/geometry/hough_plane_detector.h>
int main() {
    rofl::HoughPlaneDetector d; d.init({1, 1, 8}, rofl::Vector3(0, 0, 0), rofl::Vector3(0.1f, 0.1f, 1.f)); d.setPeakWindow(0.1f, 0.1f, 1.f);
    rofl::VectorVector3 p; for (float x : {1.5f, 1.5f, 3.5f, 3.5f, 3.5f}) p.push_back(rofl::Vector3(x, 0, 0)); d.insert(p); std::vector<rofl::HoughPlaneDetector::Indices3> m; d.findParallelPlanes(0, 0, m); CHECK(m.size() == 2);
}
''', src="geometry")

bug("C25-tol-eq", "C25", "distances that differ exactly by the tolerance",
 "Distances that differ exactly by the tolerance are taken as coherent.",
 [(G + "correspondence_graph_association.cpp", "itDst->distance < distUpper; ++itDst", "itDst->distance <= distUpper; ++itDst")],
 r'''
#include <rofl/geometry/correspondence_graph_association.h>
int main() { rofl::CorrespondenceGraphAssociation a; a.setTolerance(0.5f); std::vector<double> s{0, 1}, d{0, 1.5}; auto f = [](double x, double y) { return std::fabs(x - y); }; a.insertSrc(s.begin(), s.end(), f); a.insertDst(d.begin(), d.end(), f); std::vector<rofl::LabelSet> c; a.associate(c); for (auto& x : c) CHECK(x.size() < 2); }
''', src="geometry")

bug("C25-clique-prune", "C25", "more than one maximum association, found after a smaller one",
 "Branches that cannot give a larger association than the best so far are cut, and with them associations of equal size.",
 [(G + "correspondence_graph_association.cpp", "        const LabelSet nodesToVisit(candidateNodes);", "        if (!cliquesMax.empty() && cliquesMax.back().size() > 2 && cliqueCur.size() + candidateNodes.size() <= cliquesMax.back().size()) return;\n        const LabelSet nodesToVisit(candidateNodes);")] if False else
 [(G + "correspondence_graph_association.cpp", "            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);", "            if (cliquesMax.empty() || cliquesMax.back().size() < 3 || cliqueCurNew.size() + candidateNodesNew.size() > cliquesMax.back().size())\n            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);")],
 r'''
#include <rofl/geometry/correspondence_graph_association.h>
int main() { rofl::CorrespondenceGraphAssociation a; a.setTolerance(0.1f); std::vector<double> s{0, 1, 2}; auto f = [](double x, double y) { return std::fabs(x - y); }; a.insertSrc(s.begin(), s.end(), f); a.insertDst(s.begin(), s.end(), f); std::vector<rofl::LabelSet> c; a.associate(c); CHECK(c.size() == 2); }
''', src="geometry")

bug("C26-on-face", "C26", "a query exactly on a face of the second or third axis",
 "Queries exactly on a face are moved to another face.",
 [(GH + "box_registration.h", "                if (dimNearest < 0 || dist < distNearest) {", "                if (dimNearest < 0 || (dist < distNearest && dist > 0.0)) {")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() { rofl::BoxRegistration2d b; b.setDimension(Eigen::Vector2d(2, 4)); Eigen::Vector2d n; b.associate(Eigen::Vector2d(0.3, 2), n); CHECK((n - Eigen::Vector2d(0.3, 2)).norm() < 1e-9); }
''', src="")

bug("C29-degenerate", "C29", "a closed interval whose begin and end are the same angle in different representations",
 "A closed interval of a single angle contains every angle.",
 [(G + "base_geometry2.cpp", "        return (normalizeAngle2Pi(angle - intervBeg) <= normalizeAngle2Pi(intervEnd - intervBeg));", "        Scalar a = normalizeAngle2Pi(angle), b = normalizeAngle2Pi(intervBeg), e = normalizeAngle2Pi(intervEnd);\n        return b < e ? (b <= a && a <= e) : (a >= b || a <= e);")],
 r'''
#include <rofl/geometry/base_geometry2.h>
int main() { CHECK(!rofl::insideAngleIntervalEq(2.0f, 1.0f, 1.0f)); CHECK(rofl::insideAngleIntervalEq(1.0f, 1.0f, 1.0f)); }
''', src="geometry")

bug("C30-scale-small", "C30", "plane coefficients with a normal shorter than one",
 "Normals shorter than one are not normalised.",
 [("pcl/include/rofl/pcl/point_cloud_plane_aligner.h", "            az.normalize();\n", "            if (az.norm() > 1.0) az.normalize();\n")],
 r'''
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
int main() { rofl::PointCloudPlaneAligner<pcl::PointXYZ> a; auto c = pcl::PointCloud<pcl::PointXYZ>::Ptr(new pcl::PointCloud<pcl::PointXYZ>); c->push_back(pcl::PointXYZ(0, 0, -1)); a.setInputCloud(c); a.setPlaneCoeffs(rofl::Vector4(0, 0.3f, 0.4f, 0.4f)); a.compute(); CHECK(std::fabs(a.getTransform().linear().determinant() - 1) < 1e-4); CHECK((a.getTransform().linear() * rofl::Vector3(0, 0.6f, 0.8f) - rofl::Vector3(0, 0, 1)).norm() < 1e-4); }
''', src="", flags="-I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1")

bug("C31-iso-year", "C31", "a date in the first or last days of a year",
 "The year of the stamp is that of the ISO week.",
 [(S + "io.cpp", '        ss << prefix << std::put_time(&tm, "%Y%m%d_%H%M_%S") << postfix;', '        ss << prefix << std::put_time(&tm, "%G%m%d_%H%M_%S") << postfix;')],
 r'''
#include <ctime>
static time_t T; extern "C" time_t time(time_t* t) { if (t) *t = T; return T; }
#include <rofl/common/io.h>
int main() { setenv("TZ", "UTC", 1); T = 1609459200; CHECK(rofl::generateStampedString("", "") == "20210101_0000_00"); }
''')

bug("C31-not-dir", "C31", "a directory with a broken link or a pipe",
 "Everything that is not a directory is listed.",
 [(S + "io.cpp", "            if (i.is_regular_file()) {", "            if (!i.is_directory()) {")],
 r'''
#include <unistd.h>
#include <sys/stat.h>
#include <rofl/common/io.h>
int main() { mkdir("d", 0755); CHECK(symlink("nowhere", "d/l") == 0); mkfifo("d/p", 0644); fclose(fopen("d/f", "w")); std::vector<std::string> v; rofl::getDirectoryFiles("d", v); CHECK(v.size() == 1 && v[0] == "d/f"); }
''')

