// C27: rigid registration of a box: the alignment step is the optimal proper rigid motion.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/box_registration.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename S, int D> struct T {
    typedef rofl::BoxRegistration<S, D> B; typedef typename B::Point P; typedef typename B::VectorPoint VP; typedef typename B::Transform Tr;
    typedef Eigen::Matrix<double, D, 1> Vd; typedef Eigen::Matrix<double, D, D> Md;
};
static double best2(const Eigen::Matrix2d& s) { return std::hypot(s(0, 0) + s(1, 1), s(0, 1) - s(1, 0)); }
// maximum of trace(R S) over rotations: largest eigenvalue of Horn's matrix
static double best3(const Eigen::Matrix3d& m) {
    Eigen::Matrix4d n;
    n << m(0,0) + m(1,1) + m(2,2), m(1,2) - m(2,1), m(2,0) - m(0,2), m(0,1) - m(1,0),
         m(1,2) - m(2,1), m(0,0) - m(1,1) - m(2,2), m(0,1) + m(1,0), m(2,0) + m(0,2),
         m(2,0) - m(0,2), m(0,1) + m(1,0), -m(0,0) + m(1,1) - m(2,2), m(1,2) + m(2,1),
         m(0,1) - m(1,0), m(2,0) + m(0,2), m(1,2) + m(2,1), -m(0,0) - m(1,1) + m(2,2);
    return Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d>(n).eigenvalues()(3);
}
static double best(const Eigen::Matrix2d& s) { return best2(s); }
static double best(const Eigen::Matrix3d& s) { return best3(s); }
template <int D> static double boundary(const Eigen::Matrix<double, D, 1>& q, const Eigen::Matrix<double, D, 1>& dim) {
    double out = 0, in = 1e300; for (int i = 0; i < D; ++i) { double h = dim(i) / 2, e = std::max(0.0, std::fabs(q(i)) - h); out += e * e; in = std::min(in, h - std::fabs(q(i))); }
    return out > 0 ? out : in * in;
}
// one alignment step from transformation tr: returns the error after it
template <typename S, int D> static void step(Ctx& c, typename T<S, D>::B& b, const typename T<S, D>::Vd& dim, const typename T<S, D>::VP& cloud, typename T<S, D>::Tr& tr, double unit = 1) {
    typedef typename T<S, D>::Vd Vd; typedef typename T<S, D>::Md Md; typedef typename T<S, D>::P P;
    double tol = sizeof(S) == 4 ? 2e-4 : 1e-9; int n = cloud.size(); typename T<S, D>::VP before = cloud;
    auto prev = tr, inv = tr.inverse(); std::vector<Vd> src, dst; Vd ms = Vd::Zero(), md = Vd::Zero(); double e0 = 0, sc = unit * unit;
    for (int i = 0; i < n; ++i) {
        P q = inv * cloud[i], m; b.associate(q, m); src.push_back(m.template cast<double>()); dst.push_back(cloud[i].template cast<double>());
        ms += src[i] / n; md += dst[i] / n; e0 += boundary<D>(q.template cast<double>(), dim); sc += dst[i].squaredNorm() + src[i].squaredNorm();
    }
    b.computeTransform(cloud, tr); c.step();
    REQUIRE(c, cloud == before, "the cloud was changed");
    Md R = tr.linear().template cast<double>(); Vd t = tr.translation().template cast<double>();
    REQUIRE(c, R.allFinite() && t.allFinite(), "not finite");
    REQUIRE(c, (R * R.transpose() - Md::Identity()).norm() < 10 * tol, "the result is not an isometry:\n" << R);
    REQUIRE(c, R.determinant() > 0.5, "the result is a reflection, determinant " << R.determinant());
    for (int i = 0; i < D; ++i) REQUIRE(c, tr.matrix()(D, i) == 0, "last row");
    REQUIRE(c, tr.matrix()(D, D) == 1, "last row");
    Md s = Md::Zero(); double q2 = 0, got = 0, e1 = 0;
    for (int i = 0; i < n; ++i) { s += (src[i] - ms) * (dst[i] - md).transpose(); q2 += (src[i] - ms).squaredNorm() + (dst[i] - md).squaredNorm(); got += (R * src[i] + t - dst[i]).squaredNorm(); }
    double want = std::max(0.0, q2 - 2 * best(s));
    REQUIRE(c, got <= want + tol * sc, "the squared error with the associated points is " << got << ", the best rigid motion gives " << want);
    auto inv1 = tr.inverse(); for (int i = 0; i < n; ++i) e1 += boundary<D>((inv1 * cloud[i]).template cast<double>(), dim);
    REQUIRE(c, e1 <= e0 + tol * sc, "the squared distance from the box grew from " << e0 << " to " << e1);
    u64 h = n; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) h = mc::mix(h, (u64)(long)std::lround(R(i, j) * 1000)); c.state(h);
}
static const double Q2[12][2] = {{1.2, 0.1}, {-0.9, 0.6}, {0.3, -0.7}, {-1.1, -0.4}, {0.2, 0.55}, {2, 1}, {0, 0}, {-0.4, 1.3}, {1, -1}, {-2.5, 0.2}, {0.7, 0.9}, {-0.3, -1.6}};
static const double Q3[11][3] = {{1.2, 0.1, 0.4}, {-0.9, 0.6, -0.5}, {0.3, -0.7, 1.1}, {-1.1, -0.4, 0.2}, {0.2, 0.55, -1.3}, {2, 1, 0.5}, {0, 0, 0}, {-0.4, 1.3, 0.9}, {1, -1, -1}, {0.6, 0.8, -0.7}, {-1.3, 0.15, -0.9}};
template <typename S> static void two(Ctx& c, int np, int iters) {
    typedef T<S, 2> A; unsigned m = c.subset(np); if (!m) return;
    double ang = c.pick({0.0, 0.35, 1.5707963, 3.0, -2.0}); typename A::Vd dim; dim(0) = c.pick({2.0, 1.0}); dim(1) = c.pick({1.0, 3.0}); int sh = c.choose(sizeof(S) == 8 ? 4 : 2);
    typename A::P far(0, 0); if (sh >= 2) far = typename A::P((S)(sh == 2 ? 30 : -4000), (S)(sh == 2 ? -17 : 900));
    DESC(c, "points " << m << " moved by " << far.transpose() << " box " << dim.transpose() << " initial angle " << ang << " shift " << sh);
    typename A::B b; typename A::P d = dim.template cast<S>(); b.setDimension(d); typename A::VP cl; for (int i = 0; i < np; ++i) if (m >> i & 1) cl.push_back(typename A::P((S)Q2[i][0], (S)Q2[i][1]) + far);
    typename A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::Rotation2D<S>((S)ang)); if (sh) tr.pretranslate(typename A::P((S)0.7, (S)-1.4) + far);
    for (int k = 0; k < iters; ++k) step<S, 2>(c, b, dim, cl, tr);
}
template <typename S> static void three(Ctx& c, int np, int iters) {
    typedef T<S, 3> A; unsigned m = c.subset(np); if (!m) return;
    double ang = c.pick({0.0, 0.35, 1.5707963, 3.0}); int ax = c.choose(4); typename A::Vd dim; dim(0) = c.pick({2.0, 1.0}); dim(1) = c.pick({1.0, 3.0}); dim(2) = c.pick({1.5, 0.2});
    typename A::P far(0, 0, 0); if (sizeof(S) == 8 && ax >= 2) far = ax == 2 ? typename A::P(0, (S)50, (S)-30) : typename A::P((S)-2000, (S)7, (S)300);
    DESC(c, "points " << m << " moved by " << far.transpose() << " box " << dim.transpose() << " initial angle " << ang << " axis " << ax);
    typename A::B b; typename A::P d = dim.template cast<S>(); b.setDimension(d); typename A::VP cl; for (int i = 0; i < np; ++i) if (m >> i & 1) cl.push_back(typename A::P((S)Q3[i][0], (S)Q3[i][1], (S)Q3[i][2]) + far);
    typename A::P axis = ax == 3 ? typename A::P(typename A::P(1, 1, 1).normalized()) : typename A::P(Eigen::Matrix<S, 3, 1>::Unit(ax)); typename A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::AngleAxis<S>((S)ang, axis)); tr.pretranslate((ax & 1 ? typename A::P((S)0.7, (S)-1.4, (S)0.3) : typename A::P(0, 0, 0)) + far);
    for (int k = 0; k < iters; ++k) step<S, 3>(c, b, dim, cl, tr);
}
MC_FAMILY(plane_double, "2D, double: every subset of 8 (10) points, 5 initial angles, 4 boxes, 2 shifts, 3 iterations; thorough tier up to 12", 3) { two<double>(c, c.tier(8, 10, 12), 3); }
MC_FAMILY(plane_float, "2D, float: every subset of 7 (10) points, 5 initial angles, 4 boxes, 2 shifts, 3 iterations; thorough tier up to 12", 3) { two<float>(c, c.tier(7, 10, 12), 3); }
MC_FAMILY(space_double, "3D, double: every subset of 7 (9) points, 16 initial rotations, 8 boxes, 3 iterations; thorough tier up to 11", 3) { three<double>(c, c.tier(7, 9, 11), 3); }
MC_FAMILY(space_float, "3D, float: every subset of 6 (9) points, 16 initial rotations, 8 boxes, 3 iterations; thorough tier up to 11", 3) { three<float>(c, c.tier(6, 9, 11), 3); }
MC_FAMILY(converge, "3D: points of the surface of 8 boxes turned by up to 8 degrees about 4 axes and shifted by 3 amounts: 40 iterations, the error never grows and the box ends closer than it started", 3) {
    typedef T<double, 3> A; A::Vd dim; dim(0) = c.pick({2.0, 1.0}); dim(1) = c.pick({1.0, 3.0}); dim(2) = c.pick({1.5, 0.8}); int ax = c.choose(4); double ang = c.pick({0.02, 0.07, 0.14}), sh = c.pick({0.0, 0.05, -0.1});
    DESC(c, "box " << dim.transpose() << " axis " << ax << " angle " << ang << " shift " << sh);
    A::P axis = ax == 3 ? A::P(A::P(1, 1, 1).normalized()) : A::P(A::P::Unit(ax)); A::Tr gt = A::Tr::Identity(); gt.rotate(Eigen::AngleAxisd(ang, axis)); gt.pretranslate(A::P(sh, -sh, sh / 2));
    A::VP cl; for (int i = 0; i < 3; ++i) for (int s = -1; s <= 1; s += 2) for (int u = -3; u <= 3; ++u) for (int v = -3; v <= 3; ++v) { A::P p; p(i) = s * dim(i) / 2; p((i + 1) % 3) = u * dim((i + 1) % 3) / 7; p((i + 2) % 3) = v * dim((i + 2) % 3) / 7; cl.push_back(gt * p); }
    A::B b; b.setDimension(dim); A::Tr tr = A::Tr::Identity(); double e0 = 0, e1 = 0; for (auto& p : cl) e0 += boundary<3>(p, dim);
    for (int k = 0; k < 40; ++k) step<double, 3>(c, b, dim, cl, tr);
    for (auto& p : cl) e1 += boundary<3>(tr.inverse() * p, dim);
    REQUIRE(c, e1 < 0.1 * e0, "40 iterations reduced the squared distance only from " << e0 << " to " << e1);
}
MC_FAMILY(units, "2D and 3D: 6 clouds around the box in units of 1e-6 (double), 1e-4..1e4, 5 initial poses, 2 iterations, float and double", 3) {
    double u = c.pick({1e-6, 1e-4, 1e-3, 1e-2, 1e2, 1e4}); int k = c.choose(5), m = c.choose(6); DESC(c, "unit " << u << " pose " << k << " cloud " << m);
    auto run = [&](auto s0) { typedef decltype(s0) S;
        { typedef T<S, 2> A; typename A::Vd dim(2 * u, 1.5 * u); typename A::B b; b.setDimension(dim.template cast<S>()); typename A::VP cl; for (int i = m; i < m + 6; ++i) cl.push_back(typename A::P((S)(u * Q2[i][0]), (S)(u * Q2[i][1]))); typename A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::Rotation2D<S>((S)(0.6 * k))); tr.pretranslate(typename A::P((S)(0.1 * k * u), (S)(-0.2 * u))); for (int r = 0; r < 2; ++r) step<S, 2>(c, b, dim, cl, tr, u); }
        { typedef T<S, 3> A; typename A::Vd dim(2 * u, 1.5 * u, 0.9 * u); typename A::B b; b.setDimension(dim.template cast<S>()); typename A::VP cl; for (int i = m; i < m + 5; ++i) cl.push_back(typename A::P((S)(u * Q3[i][0]), (S)(u * Q3[i][1]), (S)(u * Q3[i][2]))); typename A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::AngleAxis<S>((S)(0.7 * k), typename A::P(1, -1, 1).normalized())); tr.pretranslate(typename A::P((S)(0.1 * k * u), (S)(-0.2 * u), (S)(0.1 * u))); for (int r = 0; r < 2; ++r) step<S, 3>(c, b, dim, cl, tr, u); } };
    run(0.0); if (u > 1e-5) run(0.0f);
}
MC_FAMILY(touching, "2D and 3D, double: every sequence of 2..4 points out of 5 that are equal or 1e-7..0.1 apart, next to where the nearest face changes or a corner, 3 initial angles, 2 iterations", 2) {
    int n = c.range(2, 4), w = c.choose(3); double e = c.pick({1e-7, 1e-5, 3e-4, 1e-3, 1e-2, 0.1}), ang = c.pick({0.0, 1.5707963267948966, 0.35}); static const double B[3][3] = {{0.5, 0.5, 0.2}, {1, 1, 0.3}, {-0.4, 0.4, 0.4}}, O[5][3] = {{0, 0, 0}, {0.6, -0.5, 0.1}, {-0.5, 0.6, -0.2}, {0.4, 0.7, 0.9}, {-0.8, -0.3, -0.6}};
    typedef T<double, 2> A; typedef T<double, 3> A3; A::VP cl; A3::VP cl3; A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::Rotation2D<double>(ang)); A3::Tr tr3 = A3::Tr::Identity(); tr3.rotate(Eigen::AngleAxisd(ang, A3::P(0, 0, 1)));
    DESC(c, "place " << w << " distance " << e << " angle " << ang << " points");
    for (int i = 0; i < n; ++i) { int k = c.choose(5); DESC(c, " " << k); A3::P p(B[w][0] + e * O[k][0], B[w][1] + e * O[k][1], B[w][2] + e * O[k][2]); cl.push_back(tr * A::P(p(0), p(1))); cl3.push_back(tr3 * p); }
    A::Vd dim(2, 2); A3::Vd dim3(2, 2, 2); A::B b; b.setDimension(dim); A3::B b3; b3.setDimension(dim3);
    for (int s = 0; s < 2; ++s) { step<double, 2>(c, b, dim, cl, tr); step<double, 3>(c, b3, dim3, cl3, tr3); }
}
MC_FAMILY(scale, "2D and 3D: clouds of 255..257, 1000, 65536 and 70000 points around the box, 3 initial poses, 2 iterations", 2) {
    int n = c.pick({255, 256, 257, 1000, 65536, 70000}), k = c.choose(3); DESC(c, n << " points, initial pose " << k);
    { typedef T<double, 2> A; A::Vd dim(2, 1.5); A::B b; b.setDimension(dim); A::VP cl; for (int i = 0; i < n; ++i) cl.push_back(A::P(1.4 * cos(i * 0.7) + 0.001 * (i % 37), 1.1 * sin(i * 1.1) - 0.002 * (i % 11)));
      A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::Rotation2D<double>(0.3 * k)); tr.pretranslate(A::P(0.1 * k, -0.2)); for (int s = 0; s < 2; ++s) step<double, 2>(c, b, dim, cl, tr); }
    { typedef T<double, 3> A; A::Vd dim(2, 1.5, 0.9); A::B b; b.setDimension(dim); A::VP cl; for (int i = 0; i < n; ++i) cl.push_back(A::P(1.4 * cos(i * 0.7) + 0.001 * (i % 37), 1.1 * sin(i * 1.1) - 0.002 * (i % 11), 0.8 * cos(i * 1.9)));
      A::Tr tr = A::Tr::Identity(); tr.rotate(Eigen::AngleAxisd(0.4 * k, A::P(1, -1, 1).normalized())); tr.pretranslate(A::P(0.1 * k, -0.2, 0.1)); for (int s = 0; s < 2; ++s) step<double, 3>(c, b, dim, cl, tr); }
}
MC_FAMILY(two_boxes, "two boxes alive together, each of 5 sides, 6 clouds, 3 initial poses: the alignment steps of the two alternate, 2D and 3D, double", 3) {
    static const double S[5][3] = {{2, 1.5, 0.9}, {1, 1, 1}, {0.5, 3, 2}, {4, 0.4, 1}, {1.5, 2, 0.9}}; const double *x = S[c.choose(5)], *y = S[c.choose(5)]; int m = c.choose(6), k = c.choose(3); DESC(c, "sides " << x[0] << "x" << x[1] << "x" << x[2] << " and " << y[0] << "x" << y[1] << "x" << y[2] << " cloud " << m << " pose " << k);
    { typedef T<double, 2> A; A::Vd da(x[0], x[1]), db(y[0], y[1]); A::B a, b; a.setDimension(da); b.setDimension(db); A::VP ca, cb; for (int i = m; i < m + 6; ++i) { ca.push_back(A::P(Q2[i][0], Q2[i][1])); if (i < m + 5) cb.push_back(A::P(Q2[i][1], -Q2[i][0])); } A::Tr ta = A::Tr::Identity(), tb = ta; tb.rotate(Eigen::Rotation2D<double>(0.6 * k)); for (int r = 0; r < 2; ++r) { step<double, 2>(c, a, da, ca, ta); step<double, 2>(c, b, db, cb, tb); } }
    { typedef T<double, 3> A; A::Vd da(x[0], x[1], x[2]), db(y[0], y[1], y[2]); A::B a, b; a.setDimension(da); b.setDimension(db); A::VP ca, cb; for (int i = m; i < m + 5; ++i) { ca.push_back(A::P(Q3[i][0], Q3[i][1], Q3[i][2])); if (i < m + 4) cb.push_back(A::P(Q3[i][1], -Q3[i][2], Q3[i][0])); } A::Tr ta = A::Tr::Identity(), tb = ta; tb.rotate(Eigen::AngleAxisd(0.7 * k, A::P(1, -1, 1).normalized())); for (int r = 0; r < 2; ++r) { step<double, 3>(c, a, da, ca, ta); step<double, 3>(c, b, db, cb, tb); } }
}
MC_MAIN()
