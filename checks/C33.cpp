// C33: initial placement of a box on a point cloud.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/box_registration.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename S, int D> static void check(Ctx& c, const Eigen::Matrix<double, D, 1>& dim, const std::vector<Eigen::Matrix<double, D, 1>>& pts, std::vector<Eigen::Matrix<double, D, 1>> earlier = {}, double unit = 1) {
    typedef rofl::BoxRegistration<S, D> B; typedef Eigen::Matrix<double, D, 1> V; typedef Eigen::Matrix<double, D, D> M;
    B b; for (auto& o : earlier) { typename B::Point q = o.template cast<S>(); b.setDimension(q); }
    typename B::Point d = dim.template cast<S>(); b.setDimension(d);
    typename B::VectorPoint cl; V mean = V::Zero(); int n = pts.size(); for (auto& p : pts) { cl.push_back(p.template cast<S>()); if (n) mean += p / n; }
    typename B::Transform tr; tr.matrix().setConstant((S)7); b.estimateInitTranform(cl, tr); c.step();
    double tol = sizeof(S) == 4 ? 2e-3 : 1e-7; M R = tr.linear().template cast<double>(); V t = tr.translation().template cast<double>();
    for (int i = 0; i <= D; ++i) REQUIRE(c, tr.matrix()(D, i) == (i == D ? 1 : 0), "last row");
    if (n < 2) { REQUIRE(c, R == M::Identity() && t == V::Zero(), "with " << n << " points the result is not the identity"); return; }
    REQUIRE(c, (R * R.transpose() - M::Identity()).norm() < tol, "not an isometry:\n" << R);
    REQUIRE(c, R.determinant() > 0.5, "the result is a reflection, determinant " << R.determinant());
    double sc = unit; for (auto& p : pts) sc += p.norm();
    REQUIRE(c, (t - mean).norm() <= tol * sc, "translation " << t.transpose() << ", centroid " << mean.transpose());
    M cov = M::Zero(); for (auto& p : pts) cov += (p - mean) * (p - mean).transpose() / (n - 1);
    M L = R.transpose() * cov * R; double big = cov.norm() + 1e-3 * unit * unit;
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (i != j) REQUIRE(c, std::fabs(L(i, j)) <= tol * big * 10, "axes " << i << "," << j << " of the box are not principal axes of the cloud: covariance " << L(i, j));
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) if (dim(i) < dim(j)) REQUIRE(c, L(i, i) <= L(j, j) + tol * big * 10, "the box side " << dim(i) << " lies along spread " << L(i, i) << ", the longer side " << dim(j) << " along spread " << L(j, j));
    u64 h = n; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) h = mc::mix(h, (u64)std::lround(100 + R(i, j) * 50)); c.state(h);
}
template <int D> static Eigen::Matrix<double, D, 1> sides(Ctx& c) { static const double V[4] = {1, 2, 3.5, 0.5}; Eigen::Matrix<double, D, 1> d; for (int i = 0; i < D; ++i) d(i) = V[c.choose(D + 1)]; return d; }
MC_FAMILY(plane, "2D: every subset of 8 (10) points, 9 pairs of sides, float and double; thorough tier up to 12", 3) {
    static const double Q[12][2] = {{1.2, 0.1}, {-0.9, 0.6}, {0.3, -0.7}, {-1.1, -0.4}, {0.2, 0.55}, {2, 1}, {0, 0}, {-0.4, 1.3}, {5, -4}, {-2.5, 7}, {0.6, -1.9}, {3.1, 0.8}};
    int np = c.tier(8, 10, 12); unsigned m = c.subset(np); auto d = sides<2>(c); bool f = c.flag(); int re = c.choose(3); DESC(c, "points " << m << " sides " << d.transpose() << (f ? " float" : " double") << (re ? re == 1 ? ", first set in the other order" : ", first set one longer" : ""));
    std::vector<Eigen::Vector2d> p, again; if (re) again.push_back(Eigen::Vector2d(d(1) + (re - 1), d(0) + (re - 1))); for (int i = 0; i < np; ++i) if (m >> i & 1) p.push_back(Eigen::Vector2d(Q[i][0], Q[i][1]));
    if (f) check<float, 2>(c, d, p, again); else check<double, 2>(c, d, p, again);
}
MC_FAMILY(space, "3D: every subset of 6 (8) points, 64 triples of sides, float and double; thorough tier up to 10", 3) {
    static const double Q[10][3] = {{1.2, 0.1, 0.4}, {-0.9, 0.6, -0.5}, {0.3, -0.7, 1.1}, {-1.1, -0.4, 0.2}, {0.2, 0.55, -1.3}, {2, 1, 0.5}, {0, 0, 0}, {-3, 1.3, 4}, {0.7, -2.2, 0.35}, {-0.15, 0.9, 2.6}};
    int np = c.tier(6, 8, 10); unsigned m = c.subset(np); auto d = sides<3>(c); bool f = c.flag(); DESC(c, "points " << m << " sides " << d.transpose() << (f ? " float" : " double"));
    std::vector<Eigen::Vector3d> p; for (int i = 0; i < np; ++i) if (m >> i & 1) p.push_back(Eigen::Vector3d(Q[i][0], Q[i][1], Q[i][2]));
    if (f) check<float, 3>(c, d, p); else check<double, 3>(c, d, p);
}
MC_FAMILY(boxes, "3D: the corners and face centres of a box with each permutation of sides 1, 2, 4, turned by 6 angles about 4 axes, registered with every permutation of sides", 3) {
    static const int PM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const double S[3] = {1, 2, 4};
    int a = c.choose(6), b = c.choose(6), ax = c.choose(4); double ang = c.pick({0.0, 0.5, 1.2, 1.5707963, 2.2, 3.1}); DESC(c, "cloud sides permutation " << a << " box permutation " << b << " axis " << ax << " angle " << ang);
    Eigen::Vector3d u = ax == 3 ? Eigen::Vector3d(Eigen::Vector3d(1, -1, 1).normalized()) : Eigen::Vector3d(Eigen::Vector3d::Unit(ax)), d; Eigen::Matrix3d R = Eigen::AngleAxisd(ang, u).toRotationMatrix(); std::vector<Eigen::Vector3d> p;
    for (int k = 0; k < 8; ++k) { Eigen::Vector3d q; for (int i = 0; i < 3; ++i) q(i) = ((k >> i & 1) - 0.5) * S[PM[a][i]]; p.push_back(R * q + Eigen::Vector3d(3, -2, 1)); }
    for (int i = 0; i < 3; ++i) d(i) = S[PM[b][i]];
    check<double, 3>(c, d, p); check<float, 3>(c, d, p, {Eigen::Vector3d(d(2) + 1, d(1) + 1, d(0) + 1)});
}
MC_FAMILY(resized, "3D: the same box object given 1..2 earlier settings and then its final sides, every sequence over the 6 permutations of sides 1, 2, 4, and sides 1, 1, 4 and 5, 3, 2; 2 turned boxes as the cloud", 3) {
    static const double S[8][3] = {{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}, {1, 1, 4}, {5, 3, 2}};
    int n = c.range(1, 2); std::vector<Eigen::Vector3d> h, p; for (int i = 0; i < n; ++i) { int k = c.choose(8); h.push_back(Eigen::Vector3d(S[k][0], S[k][1], S[k][2])); DESC(c, "sides " << h.back().transpose() << "; "); }
    int k = c.choose(8), cl = c.choose(2); Eigen::Vector3d d(S[k][0], S[k][1], S[k][2]); DESC(c, "sides " << d.transpose() << " cloud " << cl);
    Eigen::Matrix3d R = Eigen::AngleAxisd(cl ? 0.8 : 2.3, Eigen::Vector3d(1, cl, -1).normalized()).toRotationMatrix();
    for (int k = 0; k < 8; ++k) { Eigen::Vector3d q; for (int i = 0; i < 3; ++i) q(i) = ((k >> i & 1) - 0.5) * S[cl ? 3 : 0][i]; p.push_back(R * q + Eigen::Vector3d(3, -2, 1)); }
    check<double, 3>(c, d, p, h); check<float, 3>(c, d, p, h);
}
MC_FAMILY(units, "2D and 3D: 6 turned boxes of points with spreads 3, 2, 1 (and flat, and one point twice) in units of 1e-7 (double), 1e-5..1e5, 3 orders of the sides", 3) {
    double u = c.pick({1e-7, 1e-5, 1e-4, 1e-3, 1e-2, 1.0, 1e3, 1e5}); int k = c.choose(6), o = c.choose(3), kind = c.choose(3); DESC(c, "unit " << u << " pose " << k << " sides " << o << " cloud " << kind);
    std::vector<Eigen::Vector2d> p2; std::vector<Eigen::Vector3d> p3; Eigen::Matrix3d R = Eigen::AngleAxisd(0.4 + 0.7 * k, Eigen::Vector3d(1, k - 1, 1).normalized()).toRotationMatrix(); Eigen::Matrix2d Q = Eigen::Rotation2Dd(0.3 + k).toRotationMatrix();
    for (int i = 0; i < 8; ++i) { double a = i & 1 ? 3 : -3, b = i & 2 ? 2 : -2, d = i & 4 ? 1 : -1; if (kind == 1) d = 0, b *= 0.1; if (kind == 2 && i > 1) break; p2.push_back(u * (Q * Eigen::Vector2d(a, b) + Eigen::Vector2d(1, -k))); p3.push_back(u * (R * Eigen::Vector3d(a, b, d) + Eigen::Vector3d(1, -k, 2))); }
    if (kind == 2) { p2.push_back(p2[0]); p3.push_back(p3[0]); }
    static const double S[3][3] = {{4, 2, 0.8}, {0.8, 4, 2}, {2, 0.8, 4}}; Eigen::Vector3d d3(S[o][0], S[o][1], S[o][2]); Eigen::Vector2d d2(S[o][0], S[o][1]); d2 *= u; d3 *= u;
    check<double, 2>(c, d2, p2, {}, u); check<double, 3>(c, d3, p3, {}, u);
    if (u > 1e-6) { check<float, 2>(c, d2, p2, {}, u); check<float, 3>(c, d3, p3, {}, u); }
}
MC_FAMILY(scale, "2D and 3D: clouds of 255..257, 1000, 65536 and 70000 points (float up to 1000), 3 turned boxes, 3 orders of the sides", 2) {
    int n = c.pick({255, 256, 257, 1000, 65536, 70000}), k = c.choose(3), o = c.choose(3); DESC(c, n << " points, pose " << k << " sides " << o);
    std::vector<Eigen::Vector2d> p2; std::vector<Eigen::Vector3d> p3; Eigen::Matrix3d R = Eigen::AngleAxisd(0.4 + 0.7 * k, Eigen::Vector3d(1, k - 1, 1).normalized()).toRotationMatrix(); Eigen::Matrix2d Q = Eigen::Rotation2Dd(0.3 + k).toRotationMatrix();
    for (int i = 0; i < n; ++i) { double a = cos(i * 0.7), b = sin(i * 1.1), d = cos(i * 1.9 + 0.4); p2.push_back(Q * Eigen::Vector2d(2 * a, b) + Eigen::Vector2d(1, -k)); p3.push_back(R * Eigen::Vector3d(2 * a, b, 0.4 * d) + Eigen::Vector3d(1, -k, 2)); }
    static const double S[3][3] = {{4, 2, 0.8}, {0.8, 4, 2}, {2, 0.8, 4}}; Eigen::Vector3d d3(S[o][0], S[o][1], S[o][2]); Eigen::Vector2d d2(S[o][0], S[o][1]);
    check<double, 2>(c, d2, p2); check<double, 3>(c, d3, p3);
    if (n <= 1000) { check<float, 2>(c, d2, p2); check<float, 3>(c, d3, p3); }
}
MC_FAMILY(two_boxes, "two boxes alive together, each with a permutation of the sides 1, 2, 4 (and 1, 1, 4): the clouds are placed in turns, 3D and 2D, double", 2) {
    static const double S[7][3] = {{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}, {1, 1, 4}}; const double *x = S[c.choose(7)], *y = S[c.choose(7)]; int cl = c.choose(2); DESC(c, "sides " << x[0] << "," << x[1] << "," << x[2] << " and " << y[0] << "," << y[1] << "," << y[2] << " cloud " << cl);
    Eigen::Matrix3d R = Eigen::AngleAxisd(cl ? 0.8 : 2.3, Eigen::Vector3d(1, cl, -1).normalized()).toRotationMatrix(); std::vector<Eigen::Vector3d> p; rofl::BoxRegistration3d::VectorPoint v;
    for (int k = 0; k < 8; ++k) { Eigen::Vector3d q; for (int i = 0; i < 3; ++i) q(i) = ((k >> i & 1) - 0.5) * S[cl ? 3 : 0][i]; p.push_back(R * q + Eigen::Vector3d(3, -2, 1)); v.push_back(p.back()); }
    rofl::BoxRegistration3d b[2], one[2]; rofl::BoxRegistration3d::Transform t[2], u[2]; const double* d[2] = {x, y};
    for (int i = 0; i < 2; ++i) { one[i].setDimension(Eigen::Vector3d(d[i][0], d[i][1], d[i][2])); one[i].estimateInitTranform(v, u[i]); check<double, 3>(c, Eigen::Vector3d(d[i][0], d[i][1], d[i][2]), p); }
    for (int i = 0; i < 2; ++i) b[i].setDimension(Eigen::Vector3d(d[i][0], d[i][1], d[i][2]));
    for (int i = 0; i < 2; ++i) { b[i].estimateInitTranform(v, t[i]); c.step(); REQUIRE(c, (t[i].matrix() - u[i].matrix()).norm() < 1e-9, "with another box alive the placement becomes\n" << t[i].matrix() << "\ninstead of\n" << u[i].matrix()); }
}
MC_MAIN()
