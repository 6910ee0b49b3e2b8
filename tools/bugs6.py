H = "common/include/rofl/common/"
S = "common/src/"
G = "geometry/src/"
GH = "geometry/include/rofl/geometry/"

bug("C01-parent16", "C01", "a heap of more than 131072 items",
 "The index of the parent is narrowed to 16 bits.",
 [(H + "min_max_heap.h", "            return ((c - 1) >> 1);", "            return (unsigned short) ((c - 1) >> 1);")],
 r'''
#include <rofl/common/min_max_heap.h>
int main() { rofl::MinMaxHeap<int> h; int n = 200000; for (int i = 0; i < n; ++i) h.push(n - i); for (int i = 1; i <= n; ++i) { CHECK(h.top() == i); h.popTop(); } }
''', src="")

bug("C19-short-index", "C19", "more than 32767 measures",
 "The measures are numbered with 16 bits.",
 [(H + "tls_scalar_consensus.h", "std::vector<std::pair<Scalar, int>> endpoints;", "std::vector<std::pair<Scalar, short>> endpoints;"),
  (H + "tls_scalar_consensus.h", "[](const std::pair<Scalar, int>& a, const std::pair<Scalar, int>& b)", "[](const std::pair<Scalar, short>& a, const std::pair<Scalar, short>& b)")],
 r'''
#include <rofl/common/tls_scalar_consensus.h>
int main() { int n = 40000; std::vector<double> v(n), r(n, 0.4); for (int i = 0; i < n; ++i) v[i] = i < n - 500 ? 1.0 * i : -10.0; double x = 0; std::vector<bool> in; rofl::estimateTranslationTls(v, r, x, in); CHECK(std::fabs(x + 10) < 1e-3 && in[n - 1] && !in[5]); }
''', src="")

bug("C05-gap-high", "C05", "boxes of more than four dimensions with a gap between them in the fifth or a later one",
 "The size of the intersection is made non-negative in the first four directions only.",
 [(H + "interval_indices.h", "                if (intersection.dimensions_[d] < 0) {", "                if (intersection.dimensions_[d] < 0 && d < 4) {")],
 r'''
#include <rofl/common/interval_indices.h>
int main() { rofl::IntervalIndices<5, int> a({0, 0, 0, 0, 0}, {2, 2, 2, 2, 2}), b({0, 0, 0, 0, 7}, {2, 2, 2, 2, 2}), c = a.intersect(b); for (int d = 0; d < 5; ++d) CHECK(c.dimension(d) >= 0); CHECK(c.empty() && c.size() == 0); }
''', src="")

bug("C34-labels-elided", "C34", "a set of more than 2000 labels",
 "The printed form of a large set ends with dots.",
 [(S + "label_set.cpp", "            out << *it;\n", "            if (std::distance(labels_.begin(), it) > 2000) {\n                out << \"...\";\n                break;\n            }\n            out << *it;\n")],
 r'''
#include <rofl/common/label_set.h>
int main() { rofl::LabelSet a; for (int i = 0; i < 3000; ++i) a.insert(i); std::stringstream s; s << a; CHECK(s.str().find("2999") != std::string::npos); }
''')

bug("C09-nine-dims", "C09", "vectors of nine or more coordinates that differ most in the ninth or a later one",
 "The deciding coordinate is kept in three bits.",
 [(H + "morton_sort.h", "            lastDim = d;\n            lastXor = currXor;\n        }\n    }\n    return (v1[lastDim] < v2[lastDim]);\n}\n\ntemplate <typename I, int Dim>\nint", "            lastDim = d & 7;\n            lastXor = currXor;\n        }\n    }\n    return (v1[lastDim] < v2[lastDim]);\n}\n\ntemplate <typename I, int Dim>\nint")],
 r'''
#include <rofl/common/morton_sort.h>
int main() { int a[9] = {5, 0, 0, 0, 0, 0, 0, 0, 1}, b[9] = {4, 0, 0, 0, 0, 0, 0, 0, 8}; CHECK((rofl::mortonCmpInt<int, 9>(a, b)) && !(rofl::mortonCmpInt<int, 9>(b, a))); }
''', src="")
