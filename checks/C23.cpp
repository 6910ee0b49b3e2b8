// C23: plane detection with the Hough transform against counting by definition.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/hough_plane_detector.h>
#include <map>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef rofl::HoughPlaneDetector D;
typedef std::array<double, 3> P3;
struct Par { int t, f, r; double t0, f0, r0, dt, df, dr; };

static rofl::VectorVector3 vec(const std::vector<P3>& p) { rofl::VectorVector3 v; for (auto& q : p) v.push_back(rofl::Vector3((float)q[0], (float)q[1], (float)q[2])); return v; }
static P3 normal(const Par& p, int i, int j) { double t = p.t0 + p.dt * i, f = p.f0 + p.df * j; return {cos(t) * cos(f), cos(t) * sin(f), sin(t)}; }
static bool dyadic(double x) { return x * 1024 == std::floor(x * 1024); }
static bool close(double a, double b, double tol = 2e-5) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }

static void config(Ctx& c, const D& d, const Par& p) {
    REQUIRE(c, d.getThetaNum() == p.t && d.getPhiNum() == p.f && d.getRhoNum() == p.r, "bins " << d.getThetaNum() << " " << d.getPhiNum() << " " << d.getRhoNum());
    REQUIRE(c, close(d.getThetaMin(), p.t0) && close(d.getPhiMin(), p.f0) && close(d.getRhoMin(), p.r0), "minima " << d.getThetaMin() << " " << d.getPhiMin() << " " << d.getRhoMin());
    REQUIRE(c, close(d.getThetaRes(), p.dt) && close(d.getPhiRes(), p.df) && close(d.getRhoRes(), p.dr), "resolutions " << d.getThetaRes() << " " << d.getPhiRes() << " " << d.getRhoRes());
    for (int i = 0; i < p.t; ++i) for (int j = 0; j < p.f; ++j) {
        P3 n = normal(p, i, j); rofl::Vector3 a = d.getNormal(i, j), b = d.getNormal(D::Indices2{i, j});
        REQUIRE(c, a == b, "the two getNormal differ");
        for (int k = 0; k < 3; ++k) REQUIRE(c, std::fabs(a(k) - n[k]) < 2e-5, "normal of cell " << i << "," << j << " component " << k << " is " << a(k) << ", expected " << n[k]);
    }
}
static void planeOf(Ctx& c, const rofl::Vector4& a, const Par& p, int i, int j, int k) {
    P3 n = normal(p, i, j); double e[4] = {n[0], n[1], n[2], -(p.r0 + p.dr * k)};
    for (int q = 0; q < 4; ++q) REQUIRE(c, close(a(q), e[q], 3e-5), "plane of cell " << i << "," << j << "," << k << " has coefficient " << q << " = " << a(q) << ", expected " << e[q]);
}
// votes: certain counts and, next to the border of a bin, uncertain ones
static void votes(Ctx& c, const D& d, const Par& p, const std::vector<P3>& pts) {
    u64 h = mc::mix(mc::mix(p.t, p.f), p.r); std::vector<long> lo(p.r), hi(p.r);
    for (int i = 0; i < p.t; ++i) for (int j = 0; j < p.f; ++j) {
        std::fill(lo.begin(), lo.end(), 0); std::fill(hi.begin(), hi.end(), 0);
        P3 n = normal(p, i, j); bool axis = i == 0 && j == 0 && p.t0 == 0 && p.f0 == 0 && dyadic(p.r0) && dyadic(p.dr); long tot = 0, maybe = 0;
        for (auto& q : pts) {
            double rho = n[0] * q[0] + n[1] * q[1] + n[2] * q[2], x = (rho - p.r0) / p.dr;
            double eps = axis && dyadic(q[0]) ? 0 : 1e-4 * (1 + std::fabs(x)) + 1e-6 * std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) / p.dr;
            long a = (long)std::floor(x - eps), b = (long)std::floor(x + eps);
            if (a == b) { if (a >= 0 && a < p.r) { lo[a]++; hi[a]++; tot++; } }
            else { bool any = false; for (long z = std::max(0L, a); z <= std::min((long)p.r - 1, b); ++z) { hi[z]++; any = true; } maybe += any; }
        }
        u64 hs = 0; long got = 0;
        for (int k = 0; k < p.r; ++k) {
            long v = (long)d.getHoughTransform(i, j, k); h = mc::mix(h, v); hs += (u64)v * v; got += v;
            REQUIRE(c, v >= lo[k] && v <= hi[k], "cell " << i << "," << j << "," << k << " has " << v << " votes, expected " << lo[k] << (hi[k] > lo[k] ? " or a few more" : ""));
            REQUIRE(c, (long)d.getHoughTransform(D::Indices3{i, j, k}) == v, "the two getHoughTransform differ");
        }
        REQUIRE(c, got >= tot && got <= tot + maybe, "votes of direction " << i << "," << j << ": " << got << ", expected " << tot);
        REQUIRE(c, d.getHoughSpectrum(i, j) == hs && d.getHoughSpectrum(D::Indices2{i, j}) == hs, "spectrum of " << i << "," << j << " is " << d.getHoughSpectrum(i, j) << ", the sum of the squared votes is " << hs);
    }
    c.step(); c.state(h);
}
static void peaks(Ctx& c, D& d, const Par& p, int wt, int wf, int wr) {
    auto hs = [&](int i, int j) { return d.getHoughSpectrum(i, j); };
    std::vector<D::Indices2> e; std::vector<std::array<int, 3>> all;
    for (int i = 0; i < p.t; ++i) for (int j = 0; j < p.f; ++j) {
        bool ok = true;
        for (int a = std::max(0, i - wt); a <= std::min(p.t - 1, i + wt); ++a) for (int b = std::max(0, j - wf); b <= std::min(p.f - 1, j + wf); ++b) if ((a != i || b != j) && hs(a, b) >= hs(i, j)) ok = false;
        std::vector<int> rk;
        for (int k = 0; k < p.r; ++k) {
            bool m = true;
            for (int a = std::max(0, k - wr); a <= std::min(p.r - 1, k + wr); ++a) if (a != k && d.getHoughTransform(i, j, a) >= d.getHoughTransform(i, j, k)) m = false;
            if (m) rk.push_back(k);
        }
        std::vector<D::Indices3> par(2); D::VectorPlaneParam pp(3); d.findParallelPlanes(i, j, par); d.findParallelPlanes(i, j, pp); c.step(2);
        REQUIRE(c, par.size() == rk.size() && pp.size() == rk.size(), par.size() << "/" << pp.size() << " parallel planes for direction " << i << "," << j << ", expected " << rk.size());
        std::vector<int> g;
        for (size_t q = 0; q < par.size(); ++q) {
            REQUIRE(c, par[q][0] == i && par[q][1] == j, "parallel plane of another direction"); g.push_back(par[q][2]);
            if (q) REQUIRE(c, d.getHoughTransform(par[q - 1]) >= d.getHoughTransform(par[q]), "parallel planes are not sorted by votes");
            planeOf(c, pp[q], p, par[q][0], par[q][1], par[q][2]);
        }
        std::sort(g.begin(), g.end()); REQUIRE(c, g == rk, "wrong parallel planes for direction " << i << "," << j);
        if (ok) { e.push_back({i, j}); for (int k : rk) all.push_back({i, j, k}); }
    }
    std::vector<D::Indices2> s; rofl::VectorVector3 n(2); std::vector<D::Indices3> hyp; D::VectorPlaneParam pl(2);
    d.findSpectrumMax(s); d.findNormalMax(n); d.findPlanes(hyp); d.findPlanes(pl); c.step(4);
    REQUIRE(c, s.size() == e.size() && n.size() == e.size(), s.size() << "/" << n.size() << " spectrum maxima, expected " << e.size());
    for (size_t q = 0; q < s.size(); ++q) { if (q) REQUIRE(c, hs(s[q - 1][0], s[q - 1][1]) >= hs(s[q][0], s[q][1]), "spectrum maxima are not sorted"); REQUIRE(c, n[q] == d.getNormal(s[q]), "normal of spectrum maximum " << q); }
    std::sort(s.begin(), s.end()); REQUIRE(c, s == e, "wrong spectrum maxima");
    REQUIRE(c, hyp.size() == all.size() && pl.size() == all.size(), hyp.size() << "/" << pl.size() << " planes, expected " << all.size());
    std::vector<std::array<int, 3>> g; std::map<u64, int> byv;
    for (size_t q = 0; q < hyp.size(); ++q) {
        if (q) REQUIRE(c, d.getHoughTransform(hyp[q - 1]) >= d.getHoughTransform(hyp[q]), "planes are not sorted by votes");
        g.push_back({hyp[q][0], hyp[q][1], hyp[q][2]});
        rofl::Vector4 a = d.getPlaneParam(hyp[q]), b = d.getPlaneParam(hyp[q][0], hyp[q][1], hyp[q][2]);
        REQUIRE(c, a == b, "the two getPlaneParam differ"); planeOf(c, a, p, hyp[q][0], hyp[q][1], hyp[q][2]);
    }
    // equations of all planes, whatever the order among equal votes
    auto key = [](const rofl::Vector4& v) { return std::array<float, 4>{v(0), v(1), v(2), v(3)}; };
    std::vector<std::array<float, 4>> k1, k2; for (auto& v : pl) k1.push_back(key(v)); for (auto& v : hyp) k2.push_back(key(d.getPlaneParam(v)));
    std::sort(k1.begin(), k1.end()); std::sort(k2.begin(), k2.end()); REQUIRE(c, k1 == k2, "the equations are not those of the detected cells");
    std::sort(g.begin(), g.end()); REQUIRE(c, g == all, "wrong planes");
}
static Par defaults(int t, int f, int r, double dr) { return {t, f, r, 0, 0, -(r / 2) * dr, 0.5 * M_PI / t, 2 * M_PI / f, dr}; }
static const std::vector<P3> PTS{{0.3, 0.1, 0.2}, {-1.1, 0.4, 0.6}, {2.25, -1.5, 0.75}, {0, 0, 0}, {0.5, 0, 0}, {-0.5, 0.25, -1.25}, {1, 1, 1}, {-3, -2, 4}, {0.125, -0.125, -0.2}, {40, 30, -20}, {-1.05, 1.9, 0.01}, {0, 0, 1.3}};
static void show(Ctx& c, const std::vector<P3>& p) { if (c.describing) for (auto& q : p) DESC(c, "(" << q[0] << "," << q[1] << "," << q[2] << ") "); }

MC_FAMILY(sizes, "1..4 (5) x 1..9 x 1..5 (8) bins, 2 resolutions, constructed or re-initialised, every single point out of 12", 3) {
    int t = c.range(1, c.tier(4, 5)), f = c.range(1, 9), r = c.range(1, c.tier(5, 8)); double dr = c.pick({0.5, 0.3}); P3 q = PTS[c.choose(12)];
    DESC(c, t << "x" << f << "x" << r << " bins, rho resolution " << dr << ", point "); show(c, {q});
    Par p = defaults(t, f, r, dr);
    if (c.flag()) { D d(3, 5, 7, 0.25f); d.insert(vec(PTS)); d.init(t, f, r, (float)dr); config(c, d, p); votes(c, d, p, {}); d.insert(vec({q})); votes(c, d, p, {q}); }
    else { D d(t, f, r, (float)dr); config(c, d, p); d.insert(vec({q})); votes(c, d, p, {q}); peaks(c, d, p, 1, 1, 1); }
}
MC_FAMILY(domains, "general domains: theta from 3 intervals, phi from 3, rho from 4 (negative, positive, far), 2x3..5x4 bins, all pairs of 12 points", 3) {
    double t0 = c.pick({0.0, -M_PI / 2, 0.4}), f0 = c.pick({0.0, -M_PI, 1.1}), r0 = c.pick({0.0, -1.5, 0.25, -7.0}); int t = c.pick({2, 5}), f = c.pick({3, 8}), r = c.pick({4, 7});
    Par p{t, f, r, t0, f0, r0, M_PI / t, 2 * M_PI / f, c.pick({0.5, 0.37})}; int a = c.choose(12); c.bulk(12);
    DESC(c, t << "x" << f << "x" << r << " bins from " << t0 << "," << f0 << "," << r0 << ", first point " << a);
    for (int b = 0; b < 12; ++b) {
        std::vector<P3> v{PTS[a], PTS[b]};
        D d; d.init(D::Indices3{t, f, r}, rofl::Vector3((float)t0, (float)f0, (float)r0), rofl::Vector3((float)p.dt, (float)p.df, (float)p.dr));
        if (!b) config(c, d, p);
        d.insert(vec(v)); votes(c, d, p, v);
    }
}
MC_FAMILY(histories, "every history of 4 (5) steps: insert 3 different groups of points, iterator insertion after a reset, reset, initialise again with one of 2 domains, set the windows in cells or units; the peaks are searched at the end and where windows were set; thorough tier up to 6", 2) {
    Par p = defaults(2, 6, 6, 0.5); D d(2, 6, 6, 0.5f); std::vector<P3> in; std::vector<P3> G[3] = {{PTS[0], PTS[1]}, {PTS[2], PTS[4], PTS[4]}, {}};
    int n = c.tier(4, 5, 6), wt = 1, wf = 1, wr = 1; bool cells = true;
    for (int s = 0; s < n; ++s) {
        int op = c.choose(9);
        if (op < 3) { DESC(c, "insert" << op << " "); d.insert(vec(G[op])); in.insert(in.end(), G[op].begin(), G[op].end()); }
        else if (op == 3) { DESC(c, "setZero "); d.setZero(); in.clear(); }
        else if (op == 4) { DESC(c, "setZero insert by iterators "); d.setZero(); d.insert(PTS.begin(), PTS.begin() + 5, [](const P3& q) { return rofl::Vector3((float)q[0], (float)q[1], (float)q[2]); }); in.assign(PTS.begin(), PTS.begin() + 5); }
        else if (op == 5) { int r = 4 + s; DESC(c, "init " << r << " "); p = defaults(3, 2, r, 0.25); d.init(3, 2, r, 0.25f); in.clear(); }
        else if (op == 6) { DESC(c, "init with the same numbers and another domain "); p.t0 = 0.3 + 0.1 * s; p.f0 = -1.0; p.r0 = -1.25; p.dt = 0.2; p.df = 0.35; p.dr = 0.75; d.init(D::Indices3{p.t, p.f, p.r}, rofl::Vector3((float)p.t0, (float)p.f0, (float)p.r0), rofl::Vector3((float)p.dt, (float)p.df, (float)p.dr)); config(c, d, p); in.clear(); }
        else if (op == 7) { wt = s & 1; wf = 2; wr = std::max(0, 3 - s); cells = true; DESC(c, "windows " << wt << "," << wf << "," << wr << " "); d.setPeakWindow(wt, wf, wr); peaks(c, d, p, wt, wf, wr); }
        else { wt = 1; wf = 3; wr = 2; cells = false; DESC(c, "windows in units "); d.setPeakWindow((float)(0.3 * p.dt), (float)(2.2 * p.df), (float)(1.7 * p.dr)); peaks(c, d, p, wt, wf, wr); }
        if ((op == 5 || op == 6) && !cells) { cells = true; wt = wf = wr = 1; d.setPeakWindow(1, 1, 1); }  // cells or units kept: either is fine
        votes(c, d, p, in);
    }
    peaks(c, d, p, wt, wf, wr);
}
MC_FAMILY(windows, "every subset of 6 (8) points, peak windows 0..2 per parameter given in cells or in units, 3x8x8 bins (in units 2x10x24 bins of very different resolutions, plane patches instead of points); thorough tier up to 10", 3) {
    unsigned m = c.subset(c.tier(6, 8, 10)); std::vector<P3> v; for (int i = 0; i < 12; ++i) if (m >> i & 1) { v.push_back(PTS[i]); if (i & 1) v.push_back(PTS[i]); }
    int wt = c.choose(3), wf = c.choose(3), wr = c.choose(3); int un = c.choose(3); bool units = un > 0; double fr = un == 2 ? 0.75 : 0.4;
    DESC(c, "windows " << wt << "," << wf << "," << wr << (units ? " in units, points " : ", points ")); show(c, v);
    Par p = defaults(3, 8, 8, 0.5); if (units) {  // plane patches of different sizes instead of the single points
        p = Par{2, 10, 24, 0.1, -0.4, 0, 0.9, 0.11, 0.2}; wf += wf == 2 ? 2 : 0; v.clear();
        for (int i = 0; i < 8; ++i) if (m >> i & 1) { double f = p.f0 + p.df * (i * 3 % 10); for (int h = -2 - i % 3; h <= 2 + i / 4; ++h) for (int z = -1; z <= i % 2; ++z) { P3 n = normal(p, i / 4, i * 3 % 10); double t = p.t0 + p.dt * (i / 4), rho = 0.5 + 0.4 * i + 0.1; v.push_back({n[0] * rho - sin(f) * 0.6 * h - sin(t) * cos(f) * 0.6 * z, n[1] * rho + cos(f) * 0.6 * h - sin(t) * sin(f) * 0.6 * z, n[2] * rho + cos(t) * 0.6 * z}); } }
    }
    D d; d.init(D::Indices3{p.t, p.f, p.r}, rofl::Vector3((float)p.t0, (float)p.f0, (float)p.r0), rofl::Vector3((float)p.dt, (float)p.df, (float)p.dr)); d.insert(vec(v));
    if (units) d.setPeakWindow((float)((wt - fr) * p.dt), (float)((wf - fr) * p.df), (float)((wr - fr) * p.dr)); else d.setPeakWindow(wt, wf, wr);
    peaks(c, d, p, wt, wf, wr);
}
MC_FAMILY(planes, "a dense patch of a plane for every cell of a 6x12x20 transform: the plane collects all the points, the votes are exact", 2) {
    Par p = defaults(6, 12, 20, 0.2); int i = c.choose(6), j = c.choose(12), k = c.choose(20); P3 n = normal(p, i, j); double rho = p.r0 + (k + 0.5) * p.dr;
    double t = p.dt * i, f = p.df * j; P3 u{-sin(f), cos(f), 0}, w{-sin(t) * cos(f), -sin(t) * sin(f), cos(t)}; std::vector<P3> v;
    for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) { P3 q; for (int z = 0; z < 3; ++z) q[z] = n[z] * rho + 0.31 * a * u[z] + 0.27 * b * w[z]; v.push_back(q); }
    DESC(c, "cell " << i << "," << j << "," << k);
    D d(6, 12, 20, 0.2f); d.insert(vec(v)); votes(c, d, p, v);
    REQUIRE(c, d.getHoughTransform(i, j, k) == v.size(), "the plane's cell has " << d.getHoughTransform(i, j, k) << " votes of " << v.size());
    d.setPeakWindow(2, 2, 2); peaks(c, d, p, 2, 2, 2);
}
MC_FAMILY(scale, "255..257, 65535..65537 and 70000 points in one cell; 255..258, 1000 and 70000 bins of rho, 255..258 and 1000 bins of either angle with 5 points", 1) {
    int k = c.choose(20); static const int N[7] = {255, 256, 257, 65535, 65536, 65537, 70000}, B[5] = {255, 256, 258, 1000, 70000};
    DESC(c, "case " << k);
    if (k < 7) { Par p = defaults(2, 3, 4, 0.5); std::vector<P3> v(N[k], P3{0.3, 0.1, 0.2}); v.push_back({-0.7, 0.2, 0.4}); D d(2, 3, 4, 0.5f); d.insert(vec(v)); votes(c, d, p, v); peaks(c, d, p, 1, 1, 1); }
    else if (k < 12) { int b = B[k - 7]; double w = b / 256.0; Par p = defaults(1, 2, b, 1.0 / 128); std::vector<P3> v{{0.301, 0.1, 0.2}, {-0.9 * w, 0.2, 0.1}, {0.97 * w, w, 0.3}, {w - 0.011, 0.7, 0.1}, {0.4 * w, 0.3 * w, w}}; D d(1, 2, b, 1.0f / 128); d.insert(vec(v)); votes(c, d, p, v); }
    else { bool th = k < 16; int b = B[(k - 12) % 4]; Par p = th ? defaults(b, 2, 4, 0.5) : defaults(2, b, 4, 0.5); std::vector<P3> v{{0.3, 0.1, 0.2}, {-0.71, 0.4, 0.1}, {0.5, -0.3, 0.45}, {-0.1, 0.75, 0.6}, {0.301, 0.1, -0.7}}; D d(p.t, p.f, p.r, 0.5f); config(c, d, p); d.insert(vec(v)); votes(c, d, p, v); }
}
MC_FAMILY(far, "a single point or all the points of a column at coordinates 0.1, 100, 1e4 and 1e6 with either sign per axis, 3 domains: only what projects into a bin counts, however far the point is", 3) {
    static const double V[8] = {0.1, -0.1, 100.03, -100.03, 1e4, -1e4, 1e6, -1e6}; Par p = defaults(3, 8, 6, 0.5); int dom = c.choose(3); if (dom == 1) { p.r0 = 100; p.dr = 0.25; } if (dom == 2) { p.r0 = -10100; p.dr = 200; p.r = 101; }
    double x = V[c.choose(8)], y = V[c.choose(8)]; std::vector<P3> v; int z = c.choose(9); if (z < 8) v.push_back({x, y, V[z]}); else for (double w : V) v.push_back({x, y, w});
    DESC(c, "domain " << dom << " "); show(c, v);
    D d; d.init(D::Indices3{p.t, p.f, p.r}, rofl::Vector3((float)p.t0, (float)p.f0, (float)p.r0), rofl::Vector3((float)p.dt, (float)p.df, (float)p.dr)); d.insert(vec(v)); votes(c, d, p, v);
}
MC_FAMILY(two_detectors, "two detectors alive together, of the same numbers of bins and another domain, or of others: every history of 3 (4) steps on either: insert 2 groups of points, reset, search the peaks, initialise again as the other, set the windows, copy over the other; thorough tier up to 5", 3) {
    int kind = c.choose(3), n = c.tier(3, 4, 5); std::vector<P3> G[2] = {{PTS[0], PTS[1], PTS[5]}, {PTS[2], PTS[4], PTS[4]}}; struct O { D d; Par p; std::vector<P3> in; int w[3]; } o[2];
    for (int i = 0; i < 2; ++i) { Par& p = o[i].p; p = defaults(2, 4, 5, 0.5); if (i && kind == 1) p = Par{2, 4, 5, 0.3, -1.0, -1.25, 0.2, 0.35, 0.75}; if (i && kind == 2) p = defaults(3, 2, 7, 0.25); }
    auto init = [&](int i) { Par& p = o[i].p; o[i].d.init(D::Indices3{p.t, p.f, p.r}, rofl::Vector3((float)p.t0, (float)p.f0, (float)p.r0), rofl::Vector3((float)p.dt, (float)p.df, (float)p.dr)); o[i].d.setPeakWindow(1, 1, 1); o[i].in.clear(); for (int& w : o[i].w) w = 1; };
    init(0); init(1); DESC(c, "domains " << kind << " ");
    for (int s = 0; s < n; ++s) {
        int op = c.choose(14), i = op / 7; op %= 7; O& x = o[i]; DESC(c, i << ":" << op << " ");
        if (op < 2) { x.d.insert(vec(G[op])); x.in.insert(x.in.end(), G[op].begin(), G[op].end()); }
        else if (op == 2) { x.d.setZero(); x.in.clear(); }
        else if (op == 3) peaks(c, x.d, x.p, x.w[0], x.w[1], x.w[2]);
        else if (op == 4) { x.p = o[1 - i].p; init(i); }
        else if (op == 5) { x.w[0] = 0; x.w[1] = 2; x.w[2] = s & 1; x.d.setPeakWindow(x.w[0], x.w[1], x.w[2]); }
        else x = o[1 - i];
        votes(c, o[0].d, o[0].p, o[0].in); votes(c, o[1].d, o[1].p, o[1].in);
    }
    for (O& x : o) { config(c, x.d, x.p); peaks(c, x.d, x.p, x.w[0], x.w[1], x.w[2]); }
}
MC_MAIN()
