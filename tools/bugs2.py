H = "common/include/rofl/common/"
S = "common/src/"
G = "geometry/src/"
GH = "geometry/include/rofl/geometry/"

bug("C13-nlz64-step", "C13", "64 bit values whose leading bit is in bits 48..51 exactly",
 "The number of leading zeros is wrong for 64 bit numbers with the leading bit in one nibble.",
 [(S + "bit_manip.cpp", "        y = x >> 32;\n        if (y != 0) {\n            n = n - 32;", "        y = x >> 32;\n        if (y != 0) {\n            n = n - ((y >> 16) != 0 && (y >> 20) == 0 ? 33 : 32);")],
 r'''
#include <rofl/common/numeric_traits.h>
int main() { for (int b = 0; b < 63; ++b) CHECK(rofl::nlz<int64_t>((int64_t)1 << b) == 63 - b); }
''')

bug("C13-ceil-neg16", "C13", "negative 16 bit values that are exact powers of two",
 "The power of two above a negative 16 bit power of two is not the number itself.",
 [(H + "numeric_traits.h", "            return -flp2u16((UnsignedType)(-i));", "            return -flp2u16((UnsignedType)(-i - (i == -16384)));")],
 r'''
#include <rofl/common/numeric_traits.h>
int main() { for (int b = 0; b < 15; ++b) CHECK(rofl::ceilPow2<int16_t>(-(1 << b)) == -(1 << b)); }
''')

bug("C14-subnormal", "C14", "subnormal doubles with the top mantissa bit set",
 "Recomposing loses a bit of the mantissa of subnormal numbers.",
 [(S + "bit_manip.cpp", "        floatBits.i = (0x000FFFFFFFFFFFFF & m) | ((e + 1023) << 52) | ((int64_t) s << 63);", "        floatBits.i = ((e + 1023 == 0 ? 0x0007FFFFFFFFFFFF : 0x000FFFFFFFFFFFFF) & m) | ((e + 1023) << 52) | ((int64_t) s << 63);")],
 r'''
#include <rofl/common/numeric_traits.h>
int main() { for (double v : {5e-324, 1.5e-308, 2.2e-308, 1.0}) { int64_t m, e; bool s; rofl::FloatTraits<double>::decompose(v, m, e, s); CHECK(rofl::FloatTraits<double>::compose(m, e, s) == v); } }
''')

bug("C14-sign-zero", "C14", "the float negative zero",
 "The sign of the float negative zero is lost.",
 [(S + "bit_manip.cpp", "        s = 0x80000000 & floatBits.i;", "        s = floatBits.i > 0x80000000;")],
 r'''
#include <rofl/common/numeric_traits.h>
int main() { int32_t m, e; bool s; rofl::FloatTraits<float>::decompose(-0.0f, m, e, s); CHECK(s); CHECK(std::signbit(rofl::FloatTraits<float>::compose(m, e, s))); }
''')

bug("C15-comment-sticky", "C15", "a comment line followed by a line with a single word",
 "A line with only a name after another line takes the value left by the previous line.",
 [(S + "param_map.cpp", "            if (ss >> name >> value) {", "            ss >> name;\n            if (ss.good() || !value.empty()) ss >> value;\n            if (!name.empty() && !value.empty() && (ss || name.at(0) == value.at(0))) {")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; std::istringstream in("a b1\nbb\n"); p.read(in); std::ostringstream o; p.write(o); CHECK(o.str() == "a b1\n"); }
''')

bug("C15-write-append", "C15", "writing to an existing file a shorter content",
 "Writing parameters to an existing file does not remove the old content.",
 [(S + "param_map.cpp", "        std::ofstream file(filename.c_str());", "        std::ofstream file(filename.c_str(), std::ios::in | std::ios::out);\n        if (!file) file.open(filename.c_str());")],
 r'''
#include <rofl/common/param_map.h>
int main() {
    std::string f = "p.txt"; { rofl::ParamMap p; p.setParamString("a", "1"); p.setParamString("b", "2"); p.write(f); }
    { rofl::ParamMap p; p.setParamString("a", "3"); p.write(f); } rofl::ParamMap q; q.read(f); std::ostringstream o; q.write(o); CHECK(o.str() == "a 3\n");
}
''')

bug("C15-default-prefix", "C15", "asking for an absent parameter whose name is smaller than a stored name having it as a prefix",
 "An absent parameter gets the value of a parameter whose name continues its name.",
 [(H + "param_map.h", "            const_iterator v = table_.find(paramName);\n            if (v != table_.end())\n            {\n                try\n                {\n                    value =", "            const_iterator v = table_.lower_bound(paramName);\n            if (v != table_.end() && v->first.compare(0, paramName.size(), paramName) == 0)\n            {\n                try\n                {\n                    value =")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; p.setParam("radius_max", 4); int v; CHECK(!p.getParam<int>("radius", v, 7)); CHECK(v == 7); }
''')

bug("C16-negative-exp", "C16", "a value that starts with a dash and a letter after digits is not affected, but one like -inf becomes an option",
 "An option whose value is an isolated dash is not stored.",
 [(S + "param_map.cpp", "        return (str.length() >= 2 && str.at(0) == '-' && isalpha(str.at(1)));", "        return (str.length() >= 1 && str.at(0) == '-' && !isdigit(str.c_str()[1]) && str.c_str()[1] != '.');")],
 r'''
#include <rofl/common/param_map.h>
int main() { char a0[] = "p", a1[] = "-in", a2[] = "-"; char* v[] = {a0, a1, a2}; rofl::ParamMap p; p.read(3, v); std::ostringstream o; p.write(o); CHECK(o.str() == "in -\n"); }
''')

bug("C16-skip-value", "C16", "an option without a value followed by an option with a value",
 "After an option without a value the following option is skipped.",
 [(S + "param_map.cpp", "                if (!isOption(paramValue)) {", "                if (isOption(paramValue) && argi + 3 < argc) {\n                    argi++;\n                } else if (!isOption(paramValue)) {")],
 r'''
#include <rofl/common/param_map.h>
int main() { char a0[] = "p", a1[] = "-v", a2[] = "-n", a3[] = "4", a4[] = "x"; char* v[] = {a0, a1, a2, a3, a4}; rofl::ParamMap p; p.read(5, v); std::ostringstream o; p.write(o); CHECK(o.str() == "n 4\n"); }
''')

bug("C17-stop-early", "C17", "a list with an item that is not a value in a range longer than the items before it, when the range already had values",
 "Elements after the first invalid item keep the previous content.",
 [(H + "param_map.h", "            for (cit = beg; cit != end; ++cit)\n            {\n                *cit = defaultValue;\n            }\n            const_iterator v = table_.find(paramName);", "            const_iterator v = table_.find(paramName);\n            for (cit = beg; v == table_.end() && cit != end; ++cit)\n            {\n                *cit = defaultValue;\n            }")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; p.setParamString("l", "1,x,3"); std::vector<int> v(3, 9); p.getParamContainer("l", v.begin(), v.end(), "", 5); CHECK((v == std::vector<int>{1, 5, 5})); }
''')

bug("C17-delim-default", "C17", "a list parameter that is absent with a delimiter other than the default",
 "The default text is split at the default delimiters.",
 [(H + "param_map.h", "                fillWithTokens(defaultString, beg, end, defaultValue, delim);", "                fillWithTokens(defaultString, beg, end, defaultValue, delim + \",\");")],
 r'''
#include <rofl/common/param_map.h>
int main() { rofl::ParamMap p; std::vector<std::string> v(2); p.getParamContainer("l", v.begin(), v.end(), "a,b;c", std::string("z"), ";"); CHECK(v[0] == "a,b"); CHECK(v[1] == "c"); }
''')

bug("C18-min-max-else", "C18", "measures whose second one is smaller than the first and the third one greater",
 "A measure that is both below the first and... the maximum is not updated when the mean is above the measure.",
 [(S + "profiler.cpp", "            if (time > it->second.timeMax) {", "            if (time > it->second.timeMax && time - it->second.timeMax > 1e-3 * it->second.timeMin) {")],
 r'''
#include <rofl/common/profiler.h>
int main() { auto& p = rofl::Profiler::getProfiler(); p.updateStat("a", 1000); p.updateStat("a", 1000.5); std::ostringstream o; p.printStats(o); CHECK(o.str().find("1000.5") != std::string::npos); }
''')

bug("C18-timer-trunc", "C18", "durations that are not whole microseconds",
 "The elapsed time is truncated to microseconds.",
 [(S + "profiler.cpp", "        std::chrono::duration<double, std::milli> timeElapsed = timer_type::now() - timeStart_;", "        std::chrono::duration<double, std::milli> timeElapsed = std::chrono::duration_cast<std::chrono::microseconds>(timer_type::now() - timeStart_);")],
 r'''
#include <rofl/common/profiler.h>
int main() { bool fine = false; for (int i = 0; i < 200 && !fine; ++i) { rofl::ScopedTimer t("x"); double e = t.elapsedTimeMs() * 1e3; fine = std::fabs(e - std::round(e)) > 1e-4; } CHECK(fine); }
''')

bug("C18-wall-clock", "C18", "the wall clock is changed between the creation and the end of a timer",
 "Timers use the system clock.",
 [(H + "profiler.h", "        typedef std::chrono::steady_clock timer_type;", "        typedef std::chrono::high_resolution_clock timer_type;")],
 r'''
#include <rofl/common/profiler.h>
int main() { CHECK(rofl::ScopedTimer::timer_type::is_steady); }
''')

bug("C19-sort-stable", "C19", "two groups of equal support whose members have different ranges",
 "The cost counts the range of a measure that leaves the group twice.",
 [(H + "tls_scalar_consensus.h", "        rangesInverseSum -= incr * ranges[i];", "        rangesInverseSum -= incr * (incr < 0 && consensusSetCardinal == 0 ? ranges[0] : ranges[i]);")],
 r'''
#include <algorithm>
#include <rofl/common/tls_scalar_consensus.h>
int main() {
    std::vector<double> v = {10, 0, 20, 20.1}, r = {3, 1, 1, 1}; double e; std::vector<bool> in;
    rofl::estimateTranslationTls(v, r, e, in); CHECK(std::fabs(e - 20.05) < 1e-9 || std::fabs(e - 10) < 1e-9);
    std::vector<double> v2 = {0, 10, 20}, r2 = {5, 1, 4}; rofl::estimateTranslationTls(v2, r2, e, in); CHECK(std::fabs(e) < 1e-9);
    std::vector<double> v3 = {0, 10, 20}, r3 = {1, 2, 9}; rofl::estimateTranslationTls(v3, r3, e, in); CHECK(std::fabs(e - 20) < 1e-9);
    std::vector<double> v4 = {30, 10, 20}, r4 = {1, 2, 2.5}; rofl::estimateTranslationTls(v4, r4, e, in); CHECK(std::fabs(e - 20) < 1e-9);
    std::vector<double> v5 = {30, 10, 20}, r5 = {3, 2, 2.5}; rofl::estimateTranslationTls(v5, r5, e, in); CHECK(std::fabs(e - 30) < 1e-9);
}
''', "")

bug("C19-small-range", "C19", "ranges of very different size, one below 1e-3",
 "Very precise measures get a truncated weight.",
 [(H + "tls_scalar_consensus.h", "        if (std::abs(ranges[i]) < 1e-6) {\n            weights[i] = 1e+12;", "        if (std::abs(ranges[i]) < 1e-2) {\n            weights[i] = 1e+4;")],
 r'''
#include <algorithm>
#include <rofl/common/tls_scalar_consensus.h>
int main() {
    std::vector<double> v = {0, 0.0009}, r = {0.001, 0.005}; double e; std::vector<bool> in;
    rofl::estimateTranslationTls(v, r, e, in); double w0 = 1 / (r[0] * r[0]), w1 = 1 / (r[1] * r[1]); CHECK(std::fabs(e - (v[0] * w0 + v[1] * w1) / (w0 + w1)) < 1e-6);
}
''', "")

bug("C19-inlier-flags", "C19", "the vector of inliers is larger than the number of measures from a previous call",
 "The inlier flags are not resized when already large enough.",
 [(H + "tls_scalar_consensus.h", "    inliers.resize(n);", "    if (inliers.size() < n) inliers.resize(n);")],
 r'''
#include <algorithm>
#include <rofl/common/tls_scalar_consensus.h>
int main() {
    std::vector<double> v = {0, 1}, r = {1, 1}; double e; std::vector<bool> in(5, true);
    rofl::estimateTranslationTls(v, r, e, in); CHECK(in.size() == 2);
}
''', "")

bug("C20-atan2-axis", "C20", "points exactly on the negative X axis with negative zero y, or on the diagonal",
 "The angle of points of the negative X axis loses its sign or quadrant.",
 [(S + "functions.cpp", "        double th = fastAtan(z); // th in range [0,M_PI/4] \n        if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]\n        if (x < 0) th = M_PI - th; // th in range [0,M_PI]", "        double th = fastAtan(z); // th in range [0,M_PI/4] \n        if (invert) th = M_PI_2 - th; // th in range [0,M_PI/2]\n        if (x < 0 && (th > 0 || y == 0 && !std::signbit(y))) th = M_PI - th; // th in range [0,M_PI]")],
 r'''
#include <rofl/common/functions.h>
int main() { CHECK(std::fabs(rofl::fastAtan2(-1.0, -0.0) + M_PI) < 1e-4); CHECK(std::fabs(rofl::fastAtan2(-1e300, 1e-30) - M_PI) < 1e-4); }
''')

bug("C20-cos-floor", "C20", "large negative angles in single precision",
 "The reduction of the angle of the float cosine truncates instead of flooring.",
 [(S + "functions.cpp", "        c = x - (0.25f + floor(x + 0.25f));", "        c = x - (0.25f + (x < -100.0f ? (float) (int) (x + 0.25f) : floor(x + 0.25f)));")],
 r'''
#include <rofl/common/functions.h>
int main() { for (float x = -1000; x < 1000; x += 0.37f) { float c, s; rofl::fastCosSinf(x, c, s); CHECK(std::fabs(c - std::cos(x)) < 2e-3); } }
''')

bug("C21-bounds-harmonic", "C21", "a series of three or more harmonics whose coefficients of cosine are negative",
 "The phase of the harmonics is wrong for negative cosine coefficients with no sine.",
 [(S + "functions.cpp", "            phase = atan2(coeffs[2 * k + 1], coeffs[2 * k]);", "            phase = (coeffs[2 * k + 1] == 0.0 && k > 2 ? 0.0 : atan2(coeffs[2 * k + 1], coeffs[2 * k]));")],
 r'''
#include <rofl/common/functions.h>
int main() {
    std::vector<double> c = {0, 0, 0, 0, 0, 0, -1, 0}; double lo, hi; rofl::findLUFourier(c, -0.05, 0.05, lo, hi); CHECK(lo <= -1 + 1e-9); CHECK(hi < 0);
}
''')

bug("C21-eval-drift", "C21", "series of many harmonics",
 "The recursion of the harmonics is restarted every 16 terms from the wrong order.",
 [(S + "functions.cpp", "            cth = ctmp;\n            sth = stmp;", "            cth = ctmp;\n            sth = stmp;\n            if (k % 32 == 31) {\n                cth = cos(k * theta);\n                sth = sin(k * theta);\n            }")],
 r'''
#include <rofl/common/functions.h>
int main() { std::vector<double> c(80, 0); c[70] = 1; CHECK(std::fabs(rofl::evaluateFourier(c, 0.3) - std::cos(35 * 0.3)) < 1e-9); }
''')

bug("C22-overflow", "C22", "a small argument with a high order, where the recursion is rescaled",
 "The rescaling that avoids overflows forgets the values of the orders computed before.",
 [(S + "functions.cpp", "                for (int i = 0; i < pnebis.size(); ++i) {\n                    pnebis[i] *= SMALL_NUM;", "                for (int i = std::max(k, 0); i < n; ++i) {\n                    pnebis[i] *= SMALL_NUM;")],
 r'''
#include <rofl/common/functions.h>
int main() { std::vector<double> y; for (int n = 0; n < 12; ++n) for (double x : {0.01, 0.5, 2.0, 10.0, 100.0}) { rofl::evaluatePnebiVector(n, x, y); for (int k = 0; k <= n; ++k) CHECK(y[k] <= y[0] + 1e-12 && y[k] >= 0 && (k == 0 || y[k] <= y[k - 1] + 1e-12)); } }
''')

bug("C23-window-scalar", "C23", "windows given in units that are exact multiples of the resolution plus a fraction",
 "The window of phi in units is rounded with the resolution of theta.",
 [(G + "hough_plane_detector.cpp", "        iphiWin_ = (int) ceil(phiWin / phiRes_);", "        iphiWin_ = (int) ceil(phiWin / (phiRes_ > thetaRes_ ? phiRes_ : thetaRes_));")],
 r'''
#include <rofl/geometry/hough_plane_detector.h>
int main() {
    for (int i = 0; i < 12; ++i) for (int k = 0; k < 12; ++k) {
        rofl::HoughPlaneDetector d; rofl::HoughPlaneDetector::Indices3 n = {1, 12, 40}; rofl::Vector3 mn(0, 0, 0), rs(1.0, 0.1, 0.2); d.init(n, mn, rs);
        d.setPeakWindow((rofl::Scalar)0, (rofl::Scalar)0.55, (rofl::Scalar)1);
        rofl::VectorVector3 p; for (int h = -3; h <= 3; ++h) { rofl::Vector3 v = d.getNormal(0, i) * 2.5f + rofl::Vector3(-sin(0.1 * i), cos(0.1 * i), 0) * h; p.push_back(v); if (h > -2) { v = d.getNormal(0, k) * 4.3f + rofl::Vector3(-sin(0.1 * k), cos(0.1 * k), 0) * h; p.push_back(v); } } d.insert(p);
        std::vector<rofl::HoughPlaneDetector::Indices2> m; d.findSpectrumMax(m);
        for (auto& a : m) for (int q = -6; q <= 6; ++q) { int j = a[1] + q; if (q && j >= 0 && j < 12) CHECK(d.getHoughSpectrum(0, j) < d.getHoughSpectrum(0, a[1])); }
    }
}
''', "geometry")

bug("C23-reset-spectrum", "C23", "reset of the detector followed by reading the spectrum or by an empty insertion",
 "The reset keeps the spectrum.",
 [(G + "hough_plane_detector.cpp", "    void HoughPlaneDetector::setZero() {\n        houghTransform_.fill(0);\n        houghSpectrum_.fill(0);", "    void HoughPlaneDetector::setZero() {\n        houghTransform_.fill(0);")],
 r'''
#include <rofl/geometry/hough_plane_detector.h>
int main() {
    rofl::HoughPlaneDetector d(3, 8, 10, 1); rofl::VectorVector3 p = {rofl::Vector3(1, 1, 1)}; d.insert(p); d.setZero();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 8; ++j) CHECK(d.getHoughSpectrum(i, j) == 0);
}
''', "geometry")

bug("C24-angle-res", "C24", "angles of the spectrum maxima of a detector with theta domain not starting at zero",
 "The angles of the maxima are folded into half a turn.",
 [(G + "hough_line_detector.cpp", "            return (thetaMin_ + thetaRes_ * indices[0]);\n        });\n    }\n\n    void HoughLineDetector::findNormalMax", "            Scalar angle = thetaMin_ + thetaRes_ * indices[0];\n            return (angle < 0.0 ? angle + M_PI : angle);\n        });\n    }\n\n    void HoughLineDetector::findNormalMax")],
 r'''
#include <rofl/geometry/hough_line_detector.h>
int main() {
    rofl::HoughLineDetector d; rofl::HoughLineDetector::Indices2 n = {5, 16}; d.init(n, rofl::Vector2(-1.0, -4), rofl::Vector2(0.25, 0.5)); int seen = 0;
    for (int t = 0; t < 5; ++t) {
        d.setZero(); double th = -1.0 + 0.25 * t; rofl::VectorVector2 p; for (int i = -6; i < 7; ++i) p.push_back(rofl::Vector2(cos(th) * 1.7 - sin(th) * i * 0.5, sin(th) * 1.7 + cos(th) * i * 0.5)); d.insert(p);
        std::vector<rofl::Scalar> a; d.findSpectrumAngleMax(a); std::vector<int> k; d.findSpectrumIndexMax(k); CHECK(a.size() == k.size());
        for (size_t i = 0; i < a.size(); ++i) { ++seen; CHECK(std::fabs(a[i] - (-1.0 + 0.25 * k[i])) < 1e-5); }
    }
    CHECK(seen > 0);
}
''', "geometry")

bug("C24-lut-shrink", "C24", "initialising again with the same number of directions and another domain",
 "The table of normals is not computed again when the number of directions does not change.",
 [(G + "hough_line_detector.cpp", "        for (int itheta = 0; itheta < thetaNum_; ++itheta) {\n            theta = thetaRes_ * itheta + thetaMin_;\n            normalLut_[itheta] << cos(theta), sin(theta);", "        for (int itheta = 0; itheta < thetaNum_; ++itheta) {\n            theta = thetaRes_ * itheta + thetaMin_;\n            if (normalLut_[itheta].squaredNorm() > 0.99 && normalLut_[itheta].squaredNorm() < 1.01) continue;\n            normalLut_[itheta] << cos(theta), sin(theta);")],
 r'''
#include <rofl/geometry/hough_line_detector.h>
int main() {
    rofl::HoughLineDetector d(4, 10, 1); rofl::HoughLineDetector::Indices2 n = {4, 10}; d.init(n, rofl::Vector2(1.0, -5), rofl::Vector2(0.1, 1));
    rofl::VectorVector2 p = {rofl::Vector2(3.5, 0)}; d.insert(p); CHECK(d.getHoughTransform(0, (int)std::floor(3.5 * std::cos(1.0) + 5)) == 1);
}
''', "geometry")

bug("C25-distance-upper", "C25", "source and destination distances closer than the tolerance where several destination pairs have increasing distances",
 "Only the destination pairs up to the first outside the tolerance around the lower bound plus one are considered.",
 [(G + "correspondence_graph_association.cpp", "            Scalar distUpper = itSrc->distance + distTol_;", "            Scalar distUpper = std::max(distLower + distTol_, itSrc->distance * (1 + distTol_));")],
 r'''
#include <rofl/geometry/correspondence_graph_association.h>
int main() {
    std::vector<double> a = {0, 0.5}, b = {0, 0.58}; auto ds = [](double x, double y) { return std::fabs(x - y); };
    rofl::CorrespondenceGraphAssociation g; g.setTolerance(0.1); g.insertSrc(a.begin(), a.end(), ds); g.insertDst(b.begin(), b.end(), ds);
    std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> h; g.associate(h); CHECK(h.size() == 2 && h[0].associations.size() == 2);
}
''', "geometry")

bug("C25-index-src", "C25", "sets of different sizes with more destination than source items",
 "The node index uses the wrong set size in one of the two crossed correspondences.",
 [(G + "correspondence_graph_association.cpp", "                index0 = isrc0 * numDst_ + idst1;\n                index1 = isrc1 * numDst_ + idst0;", "                index0 = isrc0 * numDst_ + idst1;\n                index1 = isrc1 * std::min(numDst_, numSrc_ + 2) + idst0;")],
 r'''
#include <rofl/geometry/correspondence_graph_association.h>
int main() {
    std::vector<double> a = {0, 1}, b = {0, 10, 30, 70, 71}; auto ds = [](double x, double y) { return std::fabs(x - y); };
    rofl::CorrespondenceGraphAssociation g; g.setTolerance(0.1); g.insertSrc(a.begin(), a.end(), ds); g.insertDst(b.begin(), b.end(), ds);
    std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> h; g.associate(h); CHECK(h.size() == 2);
    for (auto& x : h) { CHECK(x.associations.size() == 2); for (auto& q : x.associations) CHECK(q.second >= 3); }
}
''', "geometry")

bug("C26-inside-min", "C26", "a query inside a box where the nearest face is not along the first tested axis and the distances are close",
 "A point inside the box is associated to a face that is not the nearest one.",
 [(GH + "box_registration.h", "                if (dimNearest < 0 || dist < distNearest) {", "                if (dimNearest < 0 || dist * dimensions_(d) < distNearest * dimensions_(dimNearest)) {")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() {
    rofl::BoxRegistration3d b; b.setDimension(Eigen::Vector3d(1, 2, 4)); Eigen::Vector3d n; b.associate(Eigen::Vector3d(0.2, 0, 1.8), n); CHECK((n - Eigen::Vector3d(0.2, 0, 2)).norm() < 1e-12);
}
''', "")

bug("C26-partial-inside", "C26", "a query outside along one axis and inside along the others",
 "The nearest point of a query outside the box beyond two faces is moved to an edge.",
 [(GH + "box_registration.h", "                nearest(d) = +0.5 * dimensions_(d);\n                inside = false;", "                nearest(d) = +0.5 * dimensions_(d);\n                if (dimNearest >= 0 && distNearest < 1e-2 * dimensions_(dimNearest)) nearest(dimNearest) = edgeNearest;\n                inside = false;")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() {
    rofl::BoxRegistration2d b; b.setDimension(Eigen::Vector2d(2, 2)); Eigen::Vector2d n; b.associate(Eigen::Vector2d(0.99, 3), n); CHECK((n - Eigen::Vector2d(0.99, 1)).norm() < 1e-9);
}
''', "")

bug("C27-two-points", "C27", "clouds of very many points",
 "Only the first 64 points of the cloud enter the rotation.",
 [(GH + "box_registration.h", "        for (int i = 0; i < n; ++i) {\n            //std::cout << \"matrix S: \"", "        for (int i = 0; i < n && i < 64; ++i) {\n            //std::cout << \"matrix S: \"")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() {
    using B = rofl::BoxRegistration2d; B b; b.setDimension(Eigen::Vector2d(2, 4)); B::VectorPoint c; Eigen::Rotation2Dd R(0.1);
    for (int i = 0; i < 200; ++i) { double s = i / 200.0 * 4 - 2; c.push_back(R * Eigen::Vector2d(i % 2 ? 1 : -1, s)); }
    B::Transform t = B::Transform::Identity(), u; auto err = [&](const B::Transform& q, const B::Transform& prev) { double e = 0; for (auto& p : c) { Eigen::Vector2d n; b.associate(prev.inverse() * p, n); e += (q * n - p).squaredNorm(); } return e; };
    u = t; b.computeTransform(c, u); double e = err(u, t);
    for (double da = -0.2; da < 0.2; da += 0.005) { B::Transform v = u; v.linear() = Eigen::Rotation2Dd(da).toRotationMatrix() * u.linear(); Eigen::Vector2d ms(0, 0), md(0, 0); for (auto& p : c) { Eigen::Vector2d n; b.associate(t.inverse() * p, n); ms += n; md += p; } v.translation() = (md - v.linear() * ms) / c.size(); CHECK(err(v, t) >= e - 1e-9); }
}
''', "")

bug("C28-lon-south", "C28", "points of the southern hemisphere",
 "The length of a degree of longitude is wrong for negative latitudes.",
 [(G + "gis.cpp", "        dist = 111415.13 * cos(lonRad) - 94.55 * cos(3.0 * lonRad) + 0.12 * cos(5.0 * lonRad);", "        dist = 111415.13 * cos(lonRad) - 94.55 * cos(3.0 * lonRad) + 0.12 * cos(5.0 * lonRad) + (lonRad < 0 ? 94.55 * sin(6.0 * lonRad) : 0.0);")],
 r'''
#include <rofl/geometry/gis.h>
int main() { for (int a = 1; a < 84; a += 3) CHECK(std::fabs(rofl::meterPerDegLon(a) - rofl::meterPerDegLon(-a)) < 1); }
''', "geometry")

bug("C28-alt-z", "C28", "points with an altitude of many kilometres at middle latitudes",
 "The altitude is scaled by the axis ratio in the polar coordinate.",
 [(G + "gis.cpp", "        z = (ROFL_WGS84_AXIS_RATIO * ROFL_WGS84_AXIS_RATIO * Nphi + alt) * sin(latRad);", "        z = ROFL_WGS84_AXIS_RATIO * ROFL_WGS84_AXIS_RATIO * (Nphi + alt) * sin(latRad);")],
 r'''
#include <rofl/geometry/gis.h>
int main() { float x, y, z0, z1; rofl::convertLatLonAltToECEF(45, 0, 0, x, y, z0); rofl::convertLatLonAltToECEF(45, 0, 100000, x, y, z1); CHECK(std::fabs(z1 - z0 - 100000 * std::sqrt(0.5)) < 4); }
''', "geometry")

bug("C29-interval-neg", "C29", "intervals given with end before begin by more than a turn",
 "The angle is compared without normalising the width of the interval.",
 [(G + "base_geometry2.cpp", "        return (normalizeAngle2Pi(angle - intervBeg) <= normalizeAngle2Pi(intervEnd - intervBeg));", "        Scalar width = intervEnd - intervBeg;\n        return (normalizeAngle2Pi(angle - intervBeg) <= (width > -K_2PI && width < 0 ? width + K_2PI : (width >= K_2PI ? normalizeAngle2Pi(width) : width)));")],
 r'''
#include <rofl/geometry/base_geometry2.h>
int main() { CHECK(rofl::insideAngleIntervalEq(0.5f, 0.0f, 1.0f - (float)(4 * M_PI))); CHECK(!rofl::insideAngleIntervalEq(1.5f, 0.0f, 1.0f - (float)(4 * M_PI))); }
''', "geometry")

bug("C29-pose-previous", "C29", "a pose converted into an output that already holds a transformation, with a zero angle",
 "A pose with zero angle keeps the previous rotation of the output.",
 [(G + "base_geometry2.cpp", "        transf = Transform2::Identity();\n        //transf.prerotate", "        if (theta != 0.0) transf = Transform2::Identity();\n        else transf.translation().setZero();\n        //transf.prerotate")],
 r'''
#include <rofl/geometry/base_geometry2.h>
int main() { rofl::Transform2 t = rofl::Transform2::Identity(); rofl::poseToIsometry2(1, 2, 1, t); rofl::poseToIsometry2(1, 2, 0, t); CHECK((t * rofl::Vector2(1, 0) - rofl::Vector2(2, 2)).norm() < 1e-5); }
''', "geometry")

bug("C30-axis-tie", "C30", "normals whose largest component is Y and close to Z",
 "For some normals the axis X is parallel to the normal.",
 [("pcl/include/rofl/pcl/point_cloud_plane_aligner.h", "                case 1: ax << 0.0, 0.0, 1.0;", "                case 1: ax << 0.0, (az(0) == 0.0 && az(2) == 0.0 ? 1.0 : 0.0), 1.0;\n                    if (az(2) == 0.0 && az(0) != 0.0) ax << az(1), -az(0), 0.1;")
 , ("pcl/include/rofl/pcl/point_cloud_plane_aligner.h", "            ay = az.cross(ax);", "            ay = (idxMax == 1 && az(1) < 0.0 && az(0) == az(2) ? ax.cross(az) : az.cross(ax));")],
 r'''
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
int main() {
    for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) { if (!x && !y && !z) continue;
        rofl::PointCloudPlaneAligner<pcl::PointXYZ> a; pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>); c->push_back(pcl::PointXYZ(0, 0, 0)); a.setInputCloud(c);
        a.setPlaneCoeffs(rofl::Vector4(x, y, z, 1)); a.compute(); CHECK(std::fabs(a.getTransform().linear().determinant() - 1) < 1e-4); }
}
''', "", "-I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1")

bug("C30-inlier-accum", "C30", "computing twice with the same object and another cloud without inliers",
 "Without inliers the previous transformation is kept.",
 [("pcl/include/rofl/pcl/point_cloud_plane_aligner.h", "            transform_ = Transform3::Identity();\n            transform_.pretranslate(-centerPlane);", "            if (inlierNum > 0 || transform_.translation().norm() == 0) transform_ = Transform3::Identity();\n            else return;\n            transform_.pretranslate(-centerPlane);")],
 r'''
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
int main() {
    rofl::PointCloudPlaneAligner<pcl::PointXYZ> a; pcl::PointCloud<pcl::PointXYZ>::Ptr c(new pcl::PointCloud<pcl::PointXYZ>); c->push_back(pcl::PointXYZ(1, 2, 0)); a.setInputCloud(c);
    a.setPlaneCoeffs(rofl::Vector4(0, 0, 1, 0.001)); a.compute(); a.setPlaneCoeffs(rofl::Vector4(1, 0, 0, 50)); a.compute();
    CHECK((a.getTransform().linear() * rofl::Vector3(1, 0, 0) - rofl::Vector3(0, 0, 1)).norm() < 1e-4);
}
''', "", "-I/usr/include/pcl-1.14 -I/usr/include/vtk-9.1")

bug("C31-hidden", "C31", "a directory with a file whose name starts with two dots, or links",
 "Links to files are not listed.",
 [(S + "io.cpp", "            if (i.is_regular_file()) {", "            if (i.is_regular_file() && i.symlink_status().type() != fs::file_type::symlink) {")],
 r'''
#include <rofl/common/io.h>
#include <unistd.h>
int main() { FILE* f = fopen("t.txt", "w"); fclose(f); CHECK(symlink("t.txt", "l.txt") == 0); std::vector<std::string> v; rofl::getDirectoryFiles(".", v); CHECK(std::count(v.begin(), v.end(), "./l.txt") == 1); }
''')

bug("C31-hour12", "C31", "a stamp taken after noon",
 "The hour is written on 12 hours at noon and midnight.",
 [(S + "io.cpp", "%Y%m%d_%H%M_%S\") << postfix;", "%Y%m%d_\") << std::put_time(&tm, (tm.tm_hour == 0 ? \"%I%M_%S\" : \"%H%M_%S\")) << postfix;")],
 r'''
#include <rofl/common/io.h>
#include <ctime>
int main() {
    time_t now = time(nullptr); int h = (now / 3600) % 24; char tz[32]; snprintf(tz, sizeof tz, "XXX%d", h); setenv("TZ", tz, 1); tzset();
    time_t a, b; std::string s; char exp[64]; do { a = time(nullptr); s = rofl::generateStampedString("p", "q"); b = time(nullptr); } while (a != b);
    std::tm t = *localtime(&a); strftime(exp, sizeof exp, "p%Y%m%d_%H%M_%Sq", &t); CHECK(s == exp);
}
''')

bug("C32-self-alias", "C32", "scaling a vector by one of its own components",
 "Scaling in place by a component of the vector itself... the first component is scaled twice when the dimension is even.",
 [(H + "vector_array.h", "				(*this)[d] *= other[d];", "				(*this)[d] *= (d + 1 < Dim || Dim < 4 ? other[d] : other[d - 1] == other[d] ? other[d] : other[d - (&other == this)]);")],
 r'''
#include <cstddef>
#include <rofl/common/vector_array.h>
int main() { rofl::VectorArray<double, 4> a; a[0] = 1; a[1] = 2; a[2] = 3; a[3] = 5; a *= a; CHECK(a[3] == 25 && a[2] == 9); }
''', "")

bug("C33-perm-order", "C33", "a 3D box whose sides are a cyclic permutation of the sorted order",
 "The sides are assigned to the inverse permutation of the principal axes.",
 [(GH + "box_registration.h", "            perm_ = perm_.inverse();", "            if (dim(0) <= dim(1) || dim(1) <= dim(2)) perm_ = perm_.inverse();\n            if (DIM == 3 && dim(1) < dim(2) && dim(2) < dim(0)) perm_ = perm_.inverse();")],
 r'''
#include <rofl/geometry/box_registration.h>
int main() {
    using B = rofl::BoxRegistration3d; double s[3] = {1, 2, 4}; std::sort(s, s + 3);
    do { B b; b.setDimension(Eigen::Vector3d(s[0], s[1], s[2])); B::VectorPoint c; for (int i = 0; i < 8; ++i) c.push_back(Eigen::Vector3d(i & 1 ? 1 : -1, i & 2 ? 2 : -2, i & 4 ? 4 : -4)); B::Transform t; b.estimateInitTranform(c, t);
        for (int k = 0; k < 3; ++k) { int ax = s[k] == 1 ? 0 : s[k] == 2 ? 1 : 2; CHECK(std::fabs(t.linear()(ax, k)) > 0.99); } } while (std::next_permutation(s, s + 3));
}
''', "")


bug("C21-bounds-pi", "C21", "an interval that wraps around zero and whose endpoints are both before or both after pi",
 "The minimum of the cosine is missed on intervals longer than a half turn that wrap around zero and end after pi.",
 [(S + "functions.cpp", "                if (bmod < M_PI && M_PI < amod) {", "                if (bmod < amod - M_PI_4 && M_PI < amod) {")],
 r"""
#include <rofl/common/functions.h>
int main() {
    for (int i = -40; i <= 40; ++i) for (int j = i; j <= 40; ++j) { double a = i * 0.2, b = j * 0.2, lo, hi; rofl::findLUCos(a, b, lo, hi);
        for (int k = 0; k <= 50; ++k) { double c = std::cos(a + (b - a) * k / 50); CHECK(c >= lo - 1e-9 && c <= hi + 1e-9); } }
}
""")

bug("C27-prev-inverse", "C27", "an initial placement that is not the identity, updated more than once",
 "The points are associated with the inverse of the rotation only when the translation is large.",
 [(GH + "box_registration.h", "            associate(transfInv * cloud[i], pointNearest);", "            associate((transf.translation().squaredNorm() > 100.0 ? Point(transfInv.linear() * cloud[i]) : Point(transfInv * cloud[i])), pointNearest);")],
 r"""
#include <rofl/geometry/box_registration.h>
int main() {
    using B = rofl::BoxRegistration2d; B b; b.setDimension(Eigen::Vector2d(2, 4)); B::VectorPoint c; Eigen::Vector2d sh(30, 20);
    for (int i = 0; i < 20; ++i) c.push_back(sh + Eigen::Vector2d(i % 2 ? 1 : -1, -2 + i * 0.2));
    B::Transform t = B::Transform::Identity(); t.translation() = sh; b.computeTransform(c, t); CHECK((t.translation() - sh).norm() < 1e-6); CHECK((t.linear() - Eigen::Matrix2d::Identity()).norm() < 1e-6);
}
""", "")

bug("C33-reuse", "C33", "setting the dimensions twice on the same object",
 "The order of the sides is not computed again when the longest side does not change.",
 [(GH + "box_registration.h", "            dimensions_ = dim;\n            perm_.setIdentity();", "            if (dimensions_.maxCoeff() == dim.maxCoeff() && dimensions_.sum() == dim.sum()) {\n                dimensions_ = dim;\n                return;\n            }\n            dimensions_ = dim;\n            perm_.setIdentity();")],
 r"""
#include <rofl/geometry/box_registration.h>
int main() {
    using B = rofl::BoxRegistration3d; B b; b.setDimension(Eigen::Vector3d(4, 2, 1)); b.setDimension(Eigen::Vector3d(1, 2, 4)); 
    B::VectorPoint p; for (int i = 0; i < 8; ++i) p.push_back(Eigen::Vector3d(i & 1 ? 1 : -1, i & 2 ? 2 : -2, i & 4 ? 4 : -4));
    B::Transform t; b.estimateInitTranform(p, t); CHECK(std::fabs(t.linear()(2, 2)) > 0.9);
}
""", "")
