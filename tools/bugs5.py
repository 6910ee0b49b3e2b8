H = "common/include/rofl/common/"
S = "common/src/"
G = "geometry/src/"
GH = "geometry/include/rofl/geometry/"
P = "pcl/include/rofl/pcl/point_cloud_plane_aligner.h"
A = G + "correspondence_graph_association.cpp"
ASSOC = r'''
#include <rofl/geometry/correspondence_graph_association.h>
static size_t run(int n, int m, std::function<double(int, int)> s, std::function<double(int, int)> d, size_t& size) {
  rofl::CorrespondenceGraphAssociation a; std::vector<int> i(n), j(m); std::iota(i.begin(), i.end(), 0); std::iota(j.begin(), j.end(), 0);
  a.insertSrc(i.begin(), i.end(), [&](int x, int y) { return (rofl::Scalar) s(x, y); }); a.insertDst(j.begin(), j.end(), [&](int x, int y) { return (rofl::Scalar) d(x, y); });
  std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> v; a.associate(v); std::set<std::vector<std::pair<int, int> > > u; for (auto& h : v) { auto w = h.associations; std::sort(w.begin(), w.end()); u.insert(w); } size = v.empty() ? 0 : v[0].associations.size(); return u.size(); }
'''

bug("C04-sparse", "C04", "the intersection of a set of more than 300 labels with a set at least 16 times smaller that holds its first label",
 "The shortcut for a much smaller operand loses the first label of the larger set.",
 [(S + "label_set.cpp", "        std::set_intersection(labels_.begin(), labels_.end(),\n                ls.labels_.begin(), ls.labels_.end(),\n                std::back_inserter(tmp));",
   "        if (labels_.size() > 300 && labels_.size() > 16 * ls.labels_.size()) {\n            // much smaller operand: looks up its labels only\n            for (auto& l : ls.labels_) {\n                if (*labels_.begin() < l && inside(l)) tmp.push_back(l);\n            }\n            return LabelSet(tmp.begin(), tmp.end());\n        }\n        std::set_intersection(labels_.begin(), labels_.end(),\n                ls.labels_.begin(), ls.labels_.end(),\n                std::back_inserter(tmp));")],
 r'''
#include <rofl/common/label_set.h>
int main() { rofl::LabelSet a, b; for (int i = 0; i < 400; ++i) a.insert(i); b.insert(0); b.insert(7); CHECK(a.intersectionSet(b) == b); }
''')

bug("C07-fill-block", "C07", "filling a grid whose number of cells exceeds 4096 and is not a multiple of 64",
 "Large grids are filled by blocks and the last incomplete block is left as it was.",
 [(H + "grid.h", "            std::fill(std::begin(data_), std::end(data_), value);", "            size_t n = data_.size();\n            if (n > 4096) n -= n % 64;\n            std::fill(std::begin(data_), std::begin(data_) + n, value);")],
 r'''
#include <rofl/common/grid.h>
using G2 = rofl::Grid<2, int, int, rofl::detail::RasterIndexer<2, int>, std::vector, std::allocator>;
int main() { G2 g; g.initBounds({70, 71}); g.fill(3); for (int i = 0; i < 70; ++i) for (int j = 0; j < 71; ++j) { int k = g.value({i, j}); CHECK(k == 3); } }
''', src="")

bug("C17-long-word", "C17", "a list parameter with an item of 40 or more characters",
 "A long item of a list counts as missing.",
 [(H + "param_map.h", "                    if (sit != tokens.end())\n", "                    if (sit != tokens.end() && sit->size() < 40)\n")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; std::string w(60, 'w'); p.setParamString("k", "[a," + w + ",b]"); std::vector<std::string> v(3); p.getParamContainer("k", v.begin(), v.end(), "", std::string("z")); CHECK(v[0] == "a" && v[1] == w && v[2] == "b"); }
''')

bug("C18-long-label", "C18", "two labels that agree in their first 64 characters",
 "Long labels are cut, so that the measures of different labels are mixed.",
 [(S + "profiler.cpp", "        auto it = stats_.find(label);", "        if (label.size() > 64) label.resize(64); // keeps the table readable\n        auto it = stats_.find(label);")],
 r'''
#include <rofl/common/profiler.h>
int main() { auto& p = rofl::Profiler::getProfiler(); std::string a(70, 'f'); p.updateStat(a + "1", 1); p.updateStat(a + "2", 2); std::ostringstream o; p.printStats(o); std::string s = o.str(); CHECK(std::count(s.begin(), s.end(), '\n') == 2); }
''')

bug("C25-many-best", "C25", "more than one hundred maximum associations",
 "Only the first hundred associations are kept.",
 [(A, "            associations.push_back(assoc);", "            if (associations.size() < 100) associations.push_back(assoc);")],
 ASSOC + r'''
int main() { size_t k; CHECK(run(5, 5, [](int, int) { return 1.0; }, [](int, int) { return 1.0; }, k) == 120 && k == 5); }
''', src="geometry")

bug("C25-same-first", "C25", "two maximum associations of five or more pairs that share their first pair",
 "A maximum association that starts as the previous one is taken for a repetition.",
 [(A, "            associations.push_back(assoc);", "            if (associations.empty() || assoc.associations.size() < 5 || assoc.associations[0] != associations.back().associations[0]) associations.push_back(assoc);")],
 ASSOC + r'''
int main() { size_t k; CHECK(run(5, 5, [](int i, int j) { return 1.0 + std::min(std::abs(i - j), 5 - std::abs(i - j)); }, [](int i, int j) { return 1.0 + std::min(std::abs(i - j), 5 - std::abs(i - j)); }, k) == 10 && k == 5); }
''', src="geometry")

bug("C25-node-limit", "C25", "sets with more than 64 possible pairs whose best association needs one of the later pairs",
 "Only the first 64 pairs are considered.",
 [(A, "        for (int i = 0; i < nodes_.size(); ++i) {\n            candidateNodes", "        for (int i = 0; i < nodes_.size() && i < 64; ++i) {\n            candidateNodes")],
 ASSOC + r'''
int main() { size_t k; auto s = [](int i, int j) { int a = std::min(i, j), b = std::max(i, j); return 10 + (a * 12 + b) * 0.5; }; CHECK(run(9, 9, s, s, k) == 1 && k == 9); }
''', src="geometry")

bug("C30-many-inliers", "C30", "a cloud with more than ten thousand points on the plane, not scattered evenly",
 "Only the first ten thousand points of the plane count for the centroid.",
 [(P, "                if (dist < planeTol_) {", "                if (dist < planeTol_ && inlierNum < 10000) {")],
 r'''
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
int main() { using C = pcl::PointCloud<pcl::PointXYZ>; C::Ptr c(new C); for (int i = 0; i < 20000; ++i) c->push_back(pcl::PointXYZ(i * 0.001f, 0, 0)); rofl::PointCloudPlaneAligner<pcl::PointXYZ> a; a.setInputCloud(c); a.setPlaneCoeffs(rofl::Vector4(0, 0, 1, 0)); a.setPlaneTol(0.1f); a.compute();
  rofl::Vector3 m = a.getTransform() * rofl::Vector3(9.9995f, 0, 0); CHECK(std::fabs(m(0)) < 0.05 && std::fabs(m(1)) < 0.05); }
''', src="", flags="-I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1")

bug("C31-long-prefix", "C31", "a prefix longer than 200 characters",
 "The prefix is cut.",
 [(S + "io.cpp", "ss << prefix << std::put_time", "ss << prefix.substr(0, 200) << std::put_time")],
 r'''
#include <rofl/common/io.h>
int main() { std::string p(300, 'p'); std::string s = rofl::generateStampedString(p, ".q"); CHECK(s.compare(0, 300, p) == 0 && s.size() == 300 + 16 + 2); }
''')

bug("C22-shared-memo", "C22", "two tables of different orders or tolerances asked for the same argument one after the other",
 "All the orders of the last argument are remembered for all tables together, until a table is initialised.",
 [(S + "functions.cpp", "        lut_.clear();\n", "        lut_.clear();\n        lastX() = -1.0;\n"),
  (S + "functions.cpp", "    PnebiLUT::PnebiLUT() :", "    static double& lastX() {\n        static double x = -1.0;\n        return x;\n    }\n\n    PnebiLUT::PnebiLUT() :"),
  (S + "functions.cpp", "            w = (x - lower->x) / (upper->x - lower->x);\n            for (int i = 0; i < lower->y.size() && i < upper->y.size() && i < y.size(); ++i) {",
   "            static double lastW = 0.0;\n            w = lastX() == x ? lastW : (x - lower->x) / (upper->x - lower->x);\n            lastX() = x;\n            lastW = w;\n            for (int i = 0; i < lower->y.size() && i < upper->y.size() && i < y.size(); ++i) {")],
 r'''
#include <rofl/common/functions.h>
int main() { rofl::PnebiLUT a(2, 0.5), b(2, 0.01); std::vector<double> y, z; for (int i = 1; i < 60; ++i) { a.eval(i * 0.13, y); b.eval(i * 0.13, z); for (int k = 0; k <= 2; ++k) CHECK(std::fabs(z[k] - b.eval(k, i * 0.13)) < 1e-9); } }
''')

bug("C25-shared-tolerance", "C25", "two associations alive together, with different tolerances, of which the second is set up before the first is computed",
 "The tolerance lives in a variable common to all the associations, initialised by the constructor.",
 [(A, "numDst_(0), distTol_(0.1), distMin_(0.0) {", "numDst_(0), distTol_(0.1), distMin_(0.0) {\n        current() = distTol_;"),
  (A, "    CorrespondenceGraphAssociation::CorrespondenceGraphAssociation()\n", "    static Scalar& current() {\n        static Scalar tol = 0.1;\n        return tol;\n    }\n\n    CorrespondenceGraphAssociation::CorrespondenceGraphAssociation()\n"),
  (A, "        distTol_ = tol;", "        distTol_ = tol;\n        current() = tol;"),
  (A, "itSrc->distance - distTol_;", "itSrc->distance - current();"), (A, "itSrc->distance + distTol_;", "itSrc->distance + current();")],
 r'''
#include <rofl/geometry/correspondence_graph_association.h>
int main() { typedef rofl::CorrespondenceGraphAssociation A; std::vector<double> s{0, 1, 3}, d{0, 1.4, 3}; auto f = [](double x, double y) { return (rofl::Scalar) std::fabs(x - y); };
  A a; a.setTolerance(0.5f); a.insertSrc(s.begin(), s.end(), f); a.insertDst(d.begin(), d.end(), f); A b; b.setTolerance(0.01f); std::vector<A::AssociationHypothesis> v; a.associate(v); CHECK(!v.empty() && v[0].associations.size() == 3); }
''', src="geometry")

bug("C26-shared-half", "C26", "two boxes alive together, the one set first is asked after the other was set",
 "The half sides are kept once for all the boxes of a type.",
 [(GH + "box_registration.h", "        Point dimensions_;\n", "        Point dimensions_;\n        inline static Point half_ = Point::Zero();\n"),
  (GH + "box_registration.h", "            dimensions_ = dim;\n", "            dimensions_ = dim;\n            half_ = 0.5 * dim;\n"),
  (GH + "box_registration.h", "                    edge = +0.5 * dimensions_(d);\n", "                    edge = half_(d);\n")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() { rofl::BoxRegistration2d a, b; a.setDimension(Eigen::Vector2d(2, 8)); b.setDimension(Eigen::Vector2d(6, 6)); Eigen::Vector2d n; a.associate(Eigen::Vector2d(0.6, 0.2), n); CHECK((n - Eigen::Vector2d(1, 0.2)).norm() < 1e-9); }
''', src="")

bug("C08-shared-window", "C08", "two detectors alive together with different windows, the first used after the window of the second was set",
 "The window is common to all the detectors of a type.",
 [(H + "peak_finder_d.h", "            iwin_ = iwin;\n", "            iwin_ = iwin;\n            shared_ = &iwin;\n            win_ = iwin;\n"),
  (H + "peak_finder_d.h", "            windowInterval.initCentered(*domainIt, iwin_);\n", "            windowInterval.initCentered(*domainIt, shared_ != nullptr ? win_ : iwin_);\n"),
  (H + "peak_finder_d.h", "        Indices iwin_;\n", "        Indices iwin_;\n        inline static Indices win_{};\n        inline static const Indices* shared_ = nullptr;\n"),
  (H + "peak_finder_d.h", "        virtual ~PeakFinderD() {\n", "        virtual ~PeakFinderD() {\n            shared_ = nullptr;\n")],
 r'''
#include <rofl/common/peak_finder_d.h>
struct Out { std::vector<std::array<int, 1> >* v; Out& operator=(const std::array<int, 1>& p) { v->push_back(p); return *this; } Out& operator*() { return *this; } Out& operator++() { return *this; } Out operator++(int) { return *this; } };
int main() { typedef rofl::PeakFinderD<1, int, int, std::greater<int> > F; F a, b; a.setDomain({9}); a.setPeakWindow({3}); b.setDomain({9}); b.setPeakWindow({1}); int v[9] = {0, 5, 1, 7, 2, 1, 6, 3, 0}; std::vector<std::array<int, 1> > o; a.detect([&](const std::array<int, 1>& i) { return v[i[0]]; }, Out{&o}); CHECK(o.size() == 1 && o[0][0] == 3); }
''', src="")

bug("C30-single-inlier", "C30", "a cloud with exactly one point on the plane, away from the plane's origin",
 "With a single point on the plane its height is not taken off the translation: all heights change.",
 [(P, "            if (inlierNum > 0) {", "            if (inlierNum > 1) {")],
 r'''
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
int main() { using C = pcl::PointCloud<pcl::PointXYZ>; C::Ptr c(new C); c->push_back(pcl::PointXYZ(1, 2, -3)); c->push_back(pcl::PointXYZ(1, 2, 5)); rofl::PointCloudPlaneAligner<pcl::PointXYZ> a; a.setInputCloud(c); a.setPlaneCoeffs(rofl::Vector4(0, 0, 1, 3)); a.setPlaneTol(0.1f); a.compute();
  rofl::Vector3 m = a.getTransform() * rofl::Vector3(1, 2, 5); CHECK(std::fabs(m(2) - 5) < 1e-4); }
''', src="", flags="-I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1")
