// C24: line detection with the Hough transform against counting by definition.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/hough_line_detector.h>
#include <map>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef rofl::HoughLineDetector D;
typedef std::array<double, 2> P2;
struct Par { int t, r; double t0, r0, dt, dr; };

static rofl::VectorVector2 vec(const std::vector<P2>& p) { rofl::VectorVector2 v; for (auto& q : p) v.push_back(rofl::Vector2((float)q[0], (float)q[1])); return v; }
static bool dyadic(double x) { return x * 1024 == std::floor(x * 1024); }
static bool close(double a, double b, double tol = 2e-5) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }

static void config(Ctx& c, const D& d, const Par& p) {
    REQUIRE(c, d.getThetaNum() == p.t && d.getRhoNum() == p.r, "bins " << d.getThetaNum() << " " << d.getRhoNum());
    REQUIRE(c, close(d.getThetaMin(), p.t0) && close(d.getRhoMin(), p.r0), "minima " << d.getThetaMin() << " " << d.getRhoMin());
    REQUIRE(c, close(d.getThetaRes(), p.dt) && close(d.getRhoRes(), p.dr), "resolutions " << d.getThetaRes() << " " << d.getRhoRes());
}
static void votes(Ctx& c, const D& d, const Par& p, const std::vector<P2>& pts) {
    u64 h = mc::mix(p.t, p.r); std::vector<long> lo(p.r), hi(p.r);
    for (int i = 0; i < p.t; ++i) {
        std::fill(lo.begin(), lo.end(), 0); std::fill(hi.begin(), hi.end(), 0);
        double th = p.t0 + p.dt * i; bool axis = i == 0 && p.t0 == 0 && dyadic(p.r0) && dyadic(p.dr); long tot = 0, maybe = 0;
        for (auto& q : pts) {
            double rho = cos(th) * q[0] + sin(th) * q[1], x = (rho - p.r0) / p.dr;
            double eps = axis && dyadic(q[0]) ? 0 : 1e-4 * (1 + std::fabs(x)) + 1e-6 * std::sqrt(q[0] * q[0] + q[1] * q[1]) / p.dr;
            long a = (long)std::floor(x - eps), b = (long)std::floor(x + eps);
            if (a == b) { if (a >= 0 && a < p.r) { lo[a]++; hi[a]++; tot++; } }
            else { bool any = false; for (long z = std::max(0L, a); z <= std::min((long)p.r - 1, b); ++z) { hi[z]++; any = true; } maybe += any; }
        }
        u64 hs = 0; long got = 0;
        for (int k = 0; k < p.r; ++k) {
            long v = (long)d.getHoughTransform(i, k); h = mc::mix(h, v); hs += (u64)v * v; got += v;
            REQUIRE(c, v >= lo[k] && v <= hi[k], "cell " << i << "," << k << " has " << v << " votes, expected " << lo[k] << (hi[k] > lo[k] ? " or a few more" : ""));
            REQUIRE(c, (long)d.getHoughTransform(D::Indices2{i, k}) == v, "the two getHoughTransform differ");
        }
        REQUIRE(c, got >= tot && got <= tot + maybe, "votes of direction " << i << ": " << got << ", expected " << tot);
        REQUIRE(c, d.getHoughSpectrum(i) == hs, "spectrum of " << i << " is " << d.getHoughSpectrum(i) << ", the sum of the squared votes is " << hs);
    }
    c.step(); c.state(h);
}
static void peaks(Ctx& c, D& d, const Par& p, int wt, int wr) {
    std::vector<int> e; std::vector<std::array<int, 2>> all;
    for (int i = 0; i < p.t; ++i) {
        bool ok = true;
        for (int a = std::max(0, i - wt); a <= std::min(p.t - 1, i + wt); ++a) if (a != i && d.getHoughSpectrum(a) >= d.getHoughSpectrum(i)) ok = false;
        if (!ok) continue;
        e.push_back(i);
        for (int k = 0; k < p.r; ++k) {
            bool m = true;
            for (int a = std::max(0, k - wr); a <= std::min(p.r - 1, k + wr); ++a) if (a != k && d.getHoughTransform(i, a) >= d.getHoughTransform(i, k)) m = false;
            if (m) all.push_back({i, k});
        }
    }
    std::vector<D::Indices1> s; std::vector<int> si; std::vector<rofl::Scalar> sa; rofl::VectorVector2 n; std::vector<D::Indices2> ln; D::VectorLineParam lp(3);
    d.findSpectrumIndicesMax(s); d.findSpectrumIndexMax(si); d.findSpectrumAngleMax(sa); d.findNormalMax(n); d.findLines(ln); d.findLines(lp); c.step(6);
    REQUIRE(c, s.size() == e.size() && si.size() == e.size() && sa.size() == e.size() && n.size() == e.size(), s.size() << "/" << si.size() << "/" << sa.size() << "/" << n.size() << " spectrum maxima, expected " << e.size());
    for (size_t q = 0; q < s.size(); ++q) {
        int i = s[q][0]; double th = p.t0 + p.dt * i;
        if (q) REQUIRE(c, d.getHoughSpectrum(s[q - 1][0]) >= d.getHoughSpectrum(i), "spectrum maxima are not sorted");
        REQUIRE(c, si[q] == i && close(sa[q], th) && close(n[q](0), cos(th)) && close(n[q](1), sin(th)), "forms of spectrum maximum " << q << " differ: " << i << ", " << si[q] << ", angle " << sa[q] << ", normal " << n[q](0) << "," << n[q](1));
    }
    std::sort(si.begin(), si.end()); REQUIRE(c, si == e, "wrong spectrum maxima");
    REQUIRE(c, ln.size() == all.size() && lp.size() == all.size(), ln.size() << "/" << lp.size() << " lines, expected " << all.size());
    std::vector<std::array<int, 2>> g; std::vector<std::array<double, 3>> k2;
    for (size_t q = 0; q < ln.size(); ++q) {
        g.push_back({ln[q][0], ln[q][1]}); double th = p.t0 + p.dt * ln[q][0]; double w[3] = {cos(th), sin(th), -(p.r0 + p.dr * ln[q][1])};
        bool found = false;
        for (auto& v : lp) if (close(v(0), w[0]) && close(v(1), w[1]) && close(v(2), w[2])) found = true;
        REQUIRE(c, found, "no equation for line " << ln[q][0] << "," << ln[q][1]);
    }
    std::sort(g.begin(), g.end()); REQUIRE(c, g == all, "wrong lines");
}
static Par defaults(int t, int r, double dr) { return {t, r, 0, 0, M_PI / t, dr}; }
static const std::vector<P2> PTS{{0.3, 0.1}, {-1.1, 0.4}, {2.25, -1.5}, {0, 0}, {0.5, 0}, {-0.5, 0.25}, {1, 1}, {-3, 4}, {0.125, -0.125}, {40, 30}, {-1.05, 1.9}, {0, 1.3}};
static void show(Ctx& c, const std::vector<P2>& p) { if (c.describing) for (auto& q : p) DESC(c, "(" << q[0] << "," << q[1] << ") "); }

MC_FAMILY(sizes, "1..9 (16) x 1..8 (16) bins, 2 resolutions, constructed or re-initialised, every pair of 12 points", 3) {
    int t = c.range(1, c.tier(9, 16)), r = c.range(1, c.tier(8, 16)); double dr = c.pick({0.5, 0.3}); std::vector<P2> q{PTS[c.choose(12)], PTS[c.choose(12)]};
    DESC(c, t << "x" << r << " bins, rho resolution " << dr << ", points "); show(c, q);
    Par p = defaults(t, r, dr);
    if (c.flag()) { D d(5, 7, 0.25f); d.insert(vec(PTS)); d.init(t, r, (float)dr); config(c, d, p); votes(c, d, p, {}); d.insert(vec(q)); votes(c, d, p, q); }
    else { D d(t, r, (float)dr); config(c, d, p); d.insert(vec(q)); votes(c, d, p, q); peaks(c, d, p, 1, 1); }
}
MC_FAMILY(domains, "general domains: theta from 3 intervals, rho from 4 (negative, positive, far), 2 x 2 sizes, 2 resolutions, all pairs of 12 points", 3) {
    double t0 = c.pick({0.0, -M_PI / 2, 0.4}), r0 = c.pick({0.0, -1.5, 0.25, -7.0}); int t = c.pick({3, 8}), r = c.pick({4, 7});
    Par p{t, r, t0, r0, M_PI / t, c.pick({0.5, 0.37})}; std::vector<P2> v{PTS[c.choose(12)], PTS[c.choose(12)]};
    DESC(c, t << "x" << r << " bins from " << t0 << "," << r0 << ", points "); show(c, v);
    D d; d.init(D::Indices2{t, r}, rofl::Vector2((float)t0, (float)r0), rofl::Vector2((float)p.dt, (float)p.dr));
    config(c, d, p); d.insert(vec(v)); votes(c, d, p, v); peaks(c, d, p, 1, 1);
}
MC_FAMILY(histories, "every history of 5 (6) steps: insert 3 different groups of points, iterator insertion after a reset, reset, initialise again with one of 2 domains, set the windows in cells or units; the peaks are searched at the end and where windows were set; thorough tier up to 7", 2) {
    Par p = defaults(6, 6, 0.5); D d(6, 6, 0.5f); std::vector<P2> in; std::vector<P2> G[3] = {{PTS[0], PTS[1]}, {PTS[2], PTS[4], PTS[4]}, {}};
    int n = c.tier(5, 6, 7), wt = 1, wr = 1; bool cells = true;
    for (int s = 0; s < n; ++s) {
        int op = c.choose(9);
        if (op < 3) { DESC(c, "insert" << op << " "); d.insert(vec(G[op])); in.insert(in.end(), G[op].begin(), G[op].end()); }
        else if (op == 3) { DESC(c, "setZero "); d.setZero(); in.clear(); }
        else if (op == 4) { DESC(c, "setZero insert by iterators "); d.setZero(); d.insert(PTS.begin(), PTS.begin() + 5, [](const P2& q) { return rofl::Vector2((float)q[0], (float)q[1]); }); in.assign(PTS.begin(), PTS.begin() + 5); }
        else if (op == 5) { int r = 4 + s; DESC(c, "init " << r << " "); p = defaults(4, r, 0.25); d.init(4, r, 0.25f); in.clear(); }
        else if (op == 6) { DESC(c, "init with the same numbers and another domain "); p.t0 = 0.3 - 0.2 * s; p.r0 = -1.25; p.dt = 0.2; p.dr = 0.75; d.init(D::Indices2{p.t, p.r}, rofl::Vector2((float)p.t0, (float)p.r0), rofl::Vector2((float)p.dt, (float)p.dr)); config(c, d, p); in.clear(); }
        else if (op == 7) { wt = s & 1; wr = 3 - s / 2; cells = true; DESC(c, "windows " << wt << "," << wr << " "); d.setPeakWindow(wt, wr); peaks(c, d, p, wt, wr); }
        else { wt = 1; wr = 2; cells = false; DESC(c, "windows in units "); d.setPeakWindow((float)(0.3 * p.dt), (float)(1.7 * p.dr)); peaks(c, d, p, wt, wr); }
        if ((op == 5 || op == 6) && !cells) { cells = true; wt = wr = 1; d.setPeakWindow(1, 1); }  // cells or units kept: either is fine
        votes(c, d, p, in);
    }
    peaks(c, d, p, wt, wr);
}
MC_FAMILY(windows, "every subset of 8 (11) points, peak windows 0..3 per parameter given in cells or in units, 12x10 bins from rho -2 (14x12 or 20x40 bins of very different resolutions and segments of lines instead of points in units); thorough tier up to 12", 3) {
    unsigned m = c.subset(c.tier(8, 11, 12)); std::vector<P2> v; for (int i = 0; i < 12; ++i) if (m >> i & 1) { v.push_back(PTS[i]); if (i & 1) v.push_back(PTS[i]); }
    int wt = c.choose(4), wr = c.choose(4); int un = c.choose(3); bool units = un > 0; double fr = un == 2 ? 0.75 : 0.4;
    DESC(c, "windows " << wt << "," << wr << (units ? " in units, points " : ", points ")); show(c, v);
    Par p{12, 10, 0, -2, M_PI / 12, 0.5};
    if (units) {
        v.clear(); p = c.flag() ? Par{14, 12, -0.3, 0, 0.05, 0.7} : Par{20, 40, -0.8, -2, 0.11, 0.1}; wt += wt > 1 ? 2 : 0;
        for (int i = 0; i < 11; ++i) if (m >> i & 1) { double t = p.t0 + p.dt * (i * 5 % p.t), rho = p.r0 + p.dr * (i * 3 % p.r + 0.5); for (int h = -2 - i % 3; h <= 2 + i / 3; ++h) v.push_back({cos(t) * rho - sin(t) * h * 0.7, sin(t) * rho + cos(t) * h * 0.7}); }
    }
    D d; d.init(D::Indices2{p.t, p.r}, rofl::Vector2((float)p.t0, (float)p.r0), rofl::Vector2((float)p.dt, (float)p.dr)); d.insert(vec(v));
    if (units) d.setPeakWindow((float)((wt - fr) * p.dt), (float)((wr - fr) * p.dr)); else d.setPeakWindow(wt, wr);
    peaks(c, d, p, wt, wr);
}
MC_FAMILY(lines, "a dense segment of a line for every cell of a 24x20 transform: the line collects all the points, the votes are exact", 2) {
    Par p{24, 20, 0, -2, M_PI / 24, 0.2}; int i = c.choose(24), k = c.choose(20); double th = p.dt * i, rho = p.r0 + (k + 0.5) * p.dr;
    std::vector<P2> v; for (int a = -7; a <= 7; ++a) v.push_back({cos(th) * rho - sin(th) * 0.31 * a, sin(th) * rho + cos(th) * 0.31 * a});
    DESC(c, "cell " << i << "," << k);
    D d; d.init(D::Indices2{24, 20}, rofl::Vector2(0, -2), rofl::Vector2((float)p.dt, 0.2f)); d.insert(vec(v)); votes(c, d, p, v);
    REQUIRE(c, d.getHoughTransform(i, k) == v.size(), "the line's cell has " << d.getHoughTransform(i, k) << " votes of " << v.size());
    d.setPeakWindow(2, 2); peaks(c, d, p, 2, 2);
}
MC_FAMILY(scale, "255..257, 65535..65537 and 70000 points in one cell; 255..258, 1000 and 70000 bins along either axis with 5 points", 1) {
    int k = c.choose(17); static const int N[7] = {255, 256, 257, 65535, 65536, 65537, 70000}, B[5] = {255, 256, 258, 1000, 70000};
    DESC(c, "case " << k);
    if (k < 7) { Par p = defaults(3, 4, 0.5); std::vector<P2> v(N[k], P2{0.3, 0.1}); v.push_back({1.1, 0.2}); D d(3, 4, 0.5f); d.insert(vec(v)); votes(c, d, p, v); peaks(c, d, p, 1, 1); }
    else if (k < 12) { int b = B[k - 7]; Par p = defaults(2, b, 1.0 / 128); std::vector<P2> v{{0.301, 0.1}, {1.9, 0.2}, {0.1, b / 128.0 - 0.1}, {b / 128.0 - 0.003, 0.7}, {b / 300.0, b / 500.0}}; D d(2, b, 1.0f / 128); d.insert(vec(v)); votes(c, d, p, v); }
    else { int b = B[k - 12]; Par p = defaults(b, 3, 0.5); std::vector<P2> v{{0.3, 0.1}, {-1.1, 0.4}, {0.9, 1.0}, {-0.1, 0.75}, {0.301, 0.1}}; D d(b, 3, 0.5f); d.insert(vec(v)); votes(c, d, p, v); }
}
MC_FAMILY(far, "a single point or all the points of a column at coordinates 0.1, 100, 1e4 and 1e6 with either sign per axis, 3 domains: only what projects into a bin counts, however far the point is", 3) {
    static const double V[8] = {0.1, -0.1, 100.03, -100.03, 1e4, -1e4, 1e6, -1e6}; Par p{8, 6, 0, -1.5, M_PI / 8, 0.5}; int dom = c.choose(3); if (dom == 1) { p.r0 = 100; p.dr = 0.25; } if (dom == 2) { p.r0 = -10100; p.dr = 200; p.r = 101; }
    double x = V[c.choose(8)]; std::vector<P2> v; int y = c.choose(9); if (y < 8) v.push_back({x, V[y]}); else for (double w : V) v.push_back({x, w});
    DESC(c, "domain " << dom << ", x " << x << ", y case " << y);
    D d; d.init(D::Indices2{p.t, p.r}, rofl::Vector2((float)p.t0, (float)p.r0), rofl::Vector2((float)p.dt, (float)p.dr)); d.insert(vec(v)); votes(c, d, p, v);
}
MC_FAMILY(two_detectors, "two detectors alive together, of the same numbers of bins and another domain, or of others: every history of 3 (4) steps on either: insert 2 groups of points, reset, search the peaks, initialise again as the other, set the windows, copy over the other; thorough tier up to 5", 3) {
    int kind = c.choose(3), n = c.tier(3, 4, 5); std::vector<P2> G[2] = {{PTS[0], PTS[1], PTS[5]}, {PTS[2], PTS[4], PTS[4]}}; struct O { D d; Par p; std::vector<P2> in; int w[2]; } o[2];
    for (int i = 0; i < 2; ++i) { Par& p = o[i].p; p = Par{5, 6, 0, -1, M_PI / 5, 0.5}; if (i && kind == 1) p = Par{5, 6, 0.3, -1.25, 0.2, 0.75}; if (i && kind == 2) p = defaults(4, 8, 0.25); }
    auto init = [&](int i) { Par& p = o[i].p; o[i].d.init(D::Indices2{p.t, p.r}, rofl::Vector2((float)p.t0, (float)p.r0), rofl::Vector2((float)p.dt, (float)p.dr)); o[i].d.setPeakWindow(1, 1); o[i].in.clear(); for (int& w : o[i].w) w = 1; };
    init(0); init(1); DESC(c, "domains " << kind << " ");
    for (int s = 0; s < n; ++s) {
        int op = c.choose(14), i = op / 7; op %= 7; O& x = o[i]; DESC(c, i << ":" << op << " ");
        if (op < 2) { x.d.insert(vec(G[op])); x.in.insert(x.in.end(), G[op].begin(), G[op].end()); }
        else if (op == 2) { x.d.setZero(); x.in.clear(); }
        else if (op == 3) peaks(c, x.d, x.p, x.w[0], x.w[1]);
        else if (op == 4) { x.p = o[1 - i].p; init(i); }
        else if (op == 5) { x.w[0] = 2; x.w[1] = s & 1; x.d.setPeakWindow(x.w[0], x.w[1]); }
        else x = o[1 - i];
        votes(c, o[0].d, o[0].p, o[0].in); votes(c, o[1].d, o[1].p, o[1].in);
    }
    for (O& x : o) { config(c, x.d, x.p); peaks(c, x.d, x.p, x.w[0], x.w[1]); }
}
MC_MAIN()
