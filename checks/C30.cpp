// C30: alignment of a point cloud to a plane.
// QUICK: 1
// LIBS: common geometry pcl
// LINK: -lpcl_common
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef rofl::PointCloudPlaneAligner<pcl::PointXYZ> A;
typedef Eigen::Vector3d V;

static bool exactBorder = false;  // distances computed without rounding: the border of the tolerance is decided
static void check(Ctx& c, A& a, const Eigen::Vector4d& coef, const std::vector<V>& pts, double tol) {
    A::PointCloudPtr cl(new A::PointCloud); for (auto& p : pts) cl->points.push_back(pcl::PointXYZ((float)p(0), (float)p(1), (float)p(2))); cl->width = cl->points.size(); cl->height = 1;
    Eigen::Vector4d n = coef; if (n(3) < 0) n = -n; double len = n.head<3>().norm(); V nz = n.head<3>() / len;
    a.setInputCloud(cl); a.setPlaneCoeffs(rofl::Vector4(coef.cast<float>())); a.setPlaneTol((float)tol); a.compute();
    A::PointCloud out; if (pts.size() % 2) out.push_back(pcl::PointXYZ(1, 2, 3)); a.transform(out); c.step(2);
    rofl::Vector4 g = a.getPlaneCoeffs(); double sg = g.cast<double>().dot(n) >= 0 ? 1 : -1;
    if (coef(3) != 0) REQUIRE(c, g(3) > 0, "the stored plane does not look toward the origin");
    REQUIRE(c, (g.cast<double>() * sg - n).norm() < 1e-5 * n.norm(), "the stored plane " << g.transpose() << " is not " << n.transpose());
    if (coef(3) == 0) nz *= sg;
    Eigen::Matrix3d R = a.getTransform().linear().cast<double>(); V t = a.getTransform().translation().cast<double>();
    REQUIRE(c, (R * R.transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-4 && R.determinant() > 0.5, "the transformation is not a rigid motion:\n" << R);
    REQUIRE(c, (R * nz - V::UnitZ()).norm() < 1e-4, "the normal " << nz.transpose() << " is mapped to " << (R * nz).transpose());
    REQUIRE(c, out.points.size() == pts.size(), "the output cloud has " << out.points.size() << " points of " << pts.size());
    double sc = 1e-6, dn = std::fabs(n(3)) / len; for (auto& p : pts) sc = std::max(sc, p.norm());
    V in = V::Zero(), sure = V::Zero(); int ni = 0; bool amb = false;
    for (size_t i = 0; i < pts.size(); ++i) {
        V o(out.points[i].x, out.points[i].y, out.points[i].z), e = R * pts[i] + t;
        REQUIRE(c, (o - e).norm() < 2e-4 * sc, "point " << i << " is mapped to " << o.transpose() << ", its transformation is " << e.transpose());
        REQUIRE(c, cl->points[i].x == (float)pts[i](0) && cl->points[i].z == (float)pts[i](2), "the input cloud was changed");
        double dist = (n.head<3>().dot(pts[i]) + n(3)) / len; if (!exactBorder && std::fabs(std::fabs(dist) - tol) < 1e-5 * (sc + dn)) amb = true;
        if (std::fabs(dist) < tol) { in += o; ++ni; }
        REQUIRE(c, std::fabs(o(2) - nz.dot(pts[i])) < 5e-4 * sc, "the height of point " << i << " along the normal is " << nz.dot(pts[i]) << ", it is mapped to " << o(2));
    }
    u64 h = ni; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) h = mc::mix(h, (u64)std::lround(100 + R(i, j) * 50)); c.state(h);
    if (amb) return;
    if (ni == 0) REQUIRE(c, t.norm() < 1e-6 * sc, "without points on the plane the cloud is translated by " << t.transpose());
    if (ni > 0) { in /= ni; REQUIRE(c, std::fabs(in(0)) < 1e-3 * sc && std::fabs(in(1)) < 1e-3 * sc, "the centroid of the " << ni << " points of the plane is mapped to " << in.transpose()); }
}
static const std::vector<V> PTS{{0.3, 0.1, 1.2}, {-1.1, 0.4, 0.9}, {2.25, -1.5, 1}, {0, 0, 0}, {0.5, 0, 1.01}, {-0.5, 0.25, -1.25}, {1, 1, 1}, {-3, -2, 4}, {4, 3, -2}};
MC_FAMILY(normals, "every integer normal with components -3..3 (-5..5), 5 offsets, 2 signs, 5 lengths of the coefficients: 9 points; thorough tier up to 8", 2) {
    int R = c.tier(3, 5, 8), x = c.range(-R, R), y = c.range(-R, R), z = c.range(-R, R); if (!x && !y && !z) return;
    double d = c.pick({1.0, 0.0, 0.25, 3.0, 10.0}), k = c.pick({1.0, 3.0, 0.2, 1e-3, 1e3}); bool neg = c.flag(); V n = V(x, y, z).normalized(); Eigen::Vector4d q(n(0), n(1), n(2), d); q *= neg ? -k : k;
    DESC(c, "plane " << q.transpose()); A a; check(c, a, q, PTS, 0.5);
}
MC_FAMILY(inliers, "every subset of 9 points, 6 planes, 4 tolerances, 5 lengths of the coefficients", 3) {
    static const V N[6] = {{0, 0, 1}, {0, 1, 0}, {-1, 0, 0}, {0.6, 0, 0.8}, {0.36, 0.48, -0.8}, {-0.48, 0.6, 0.64}};
    unsigned m = c.subset(c.tier(7, 9)); V n = N[c.choose(6)]; double tol = c.pick({0.3, 0.02, 1.5, 100.0}), k = c.pick({1.0, 4.0, 0.1, 1e-3, 500.0}); std::vector<V> p; for (int i = 0; i < 9; ++i) if (m >> i & 1) p.push_back(PTS[i]);
    Eigen::Vector4d q(n(0), n(1), n(2), 1); q *= k; DESC(c, "points " << m << " plane " << q.transpose() << " tolerance " << tol); A a; check(c, a, q, p, tol);
}
MC_FAMILY(reuse, "one aligner used for every sequence of 3 (4) configurations out of 5 (cloud, plane, tolerance); thorough tier up to 5", 2) {
    A a; int n = c.tier(3, 4, 5); static const double N[5][4] = {{0, 0, 1, 1}, {1, 0, 0, -1}, {0, -0.6, 0.8, 0.5}, {0, 0, -2, 3}, {0.36, 0.48, 0.8, -1.1}};
    for (int s = 0; s < n; ++s) { int k = c.choose(5); DESC(c, k << " "); std::vector<V> p(PTS.begin() + k, PTS.end() - (k & 1)); check(c, a, Eigen::Vector4d(N[k][0], N[k][1], N[k][2], N[k][3]), p, k == 2 ? 5.0 : 0.4); }
}
MC_FAMILY(patches, "dense patches of 36 points on planes at latitude -80..80 by 20, longitude 0..340 by 20, with 5 points off the plane", 2) {
    int la = c.range(-4, 4), lo = c.choose(18); double t = la * M_PI / 9, f = lo * M_PI / 9, d = c.pick({1.0, 4.0}); V n(cos(t) * cos(f), cos(t) * sin(f), sin(t)), u(-sin(f), cos(f), 0), w = n.cross(u); std::vector<V> p;
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) p.push_back(-n * d + u * (0.3 * i + 1) + w * (0.2 * j - 2)); for (int k = 0; k < 5; ++k) p.push_back(n * (k + 0.5) + u * k);
    DESC(c, "latitude " << la * 20 << " longitude " << lo * 20); A a; check(c, a, Eigen::Vector4d(n(0), n(1), n(2), d), p, 0.05);
}
MC_FAMILY(large, "clouds of 100, 1000, 5000 and 70000 points, half of them on the plane, organised or not, 12 planes, at the origin or 100 away", 2) {
    int n = c.pick({100, 1000, 5000, 70000}), k = c.choose(12); double off = c.pick({0.0, 100.0}); double f = 0.5 + k * 0.7, t = -1.3 + k * 0.21; V nn(cos(t) * cos(f), cos(t) * sin(f), sin(t)), u(-sin(f), cos(f), 0), w = nn.cross(u); std::vector<V> p;
    for (int i = 0; i < n; ++i) { V q = -nn * 2.0 + u * (off + (i % 37) * 0.05) + w * ((i / 37) * 0.05 - off); if (i % 2) q += nn * (0.3 + (i % 5) * 0.2) * (i % 4 == 1 ? -1 : 1); p.push_back(q); }
    DESC(c, n << " points, plane " << k << " offset " << off); A a; check(c, a, Eigen::Vector4d(nn(0), nn(1), nn(2), 2) * (k % 3 ? 1 : -2), p, 0.05);
}
MC_FAMILY(units, "9 points and the plane in units of 1e-4, 1e-2, 1, 100 and 1e4, every integer normal with components -1..1, 4 offsets, 3 tolerances, 3 lengths of the coefficients", 2) {
    double s = c.pick({1.0, 1e-4, 1e-2, 100.0, 1e4}); int x = c.range(-1, 1), y = c.range(-1, 1), z = c.range(-1, 1); if (!x && !y && !z) return; V n = V(x, y, z).normalized();
    double d = c.pick({1.0, 0.25, -0.6, -2.0}), tol = c.pick({0.31, 0.9, 7.0}), k = c.pick({1.0, 1e-3, 400.0}); std::vector<V> p; for (auto& q : PTS) p.push_back(q * s); Eigen::Vector4d q(n(0), n(1), n(2), d * s); q *= k;
    DESC(c, "plane " << q.transpose() << " tolerance " << tol * s << " unit " << s); A a; check(c, a, q, p, tol * s);
}
// Points without a measure (not a number) in a cloud that says so, other fields of the points, the same cloud computed again.
typedef rofl::PointCloudPlaneAligner<pcl::PointXYZI> AI;
MC_FAMILY(fields, "points with intensity, every subset of 6 points without a measure (cloud marked as not dense), 4 planes: the others are moved, the intensities kept, the centroid is that of the others; computed twice", 2) {
    static const double N[4][4] = {{0, 0, 1, 1}, {1, 0, 0, -1}, {0, -0.6, 0.8, 0.5}, {0.36, 0.48, 0.8, -1.1}}; unsigned m = c.subset(6); int k = c.choose(4); DESC(c, "plane " << k << " without a measure " << m);
    const float nan = std::nanf(""); AI::PointCloudPtr cl(new AI::PointCloud); rofl::Vector4 q(N[k][0], N[k][1], N[k][2], N[k][3]);
    for (int i = 0; i < 6; ++i) { pcl::PointXYZI p; p.x = m >> i & 1 ? nan : (float)PTS[i](0); p.y = m >> i & 1 ? nan : (float)PTS[i](1); p.z = m >> i & 1 ? nan : (float)PTS[i](2); p.intensity = 10 * i + 1; cl->points.push_back(p); }
    cl->width = 3; cl->height = 2; cl->is_dense = m == 0; AI a; a.setInputCloud(cl); a.setPlaneCoeffs(q); a.setPlaneTol(1.7f); a.compute(); rofl::Transform3 T = a.getTransform(); a.compute(); c.step(2);
    REQUIRE(c, T.matrix() == a.getTransform().matrix(), "computed again on the same cloud the transformation changes");
    AI::PointCloud out; a.transform(out); REQUIRE(c, out.points.size() == 6 && out.width == 3 && out.height == 2, "the output cloud has " << out.points.size() << " points, " << out.width << " x " << out.height);
    V mean = V::Zero(); int ni = 0;
    for (int i = 0; i < 6; ++i) {
        auto& o = out.points[i]; REQUIRE(c, o.intensity == 10 * i + 1, "intensity of point " << i << " is " << o.intensity);
        if (m >> i & 1) { REQUIRE(c, std::isnan(o.x) && std::isnan(o.z), "point " << i << " has no measure but is mapped to " << o.x); continue; }
        V g(o.x, o.y, o.z), e = (T * rofl::Vector3(PTS[i].cast<float>())).cast<double>(); REQUIRE(c, (g - e).norm() < 1e-4, "point " << i << " is mapped to " << g.transpose() << ", its transformation is " << e.transpose());
        if (std::fabs(q.head<3>().cast<double>().dot(PTS[i]) + q(3)) < 1.7) { mean += g; ++ni; }
    }
    if (ni) { mean /= ni; REQUIRE(c, std::fabs(mean(0)) < 1e-4 && std::fabs(mean(1)) < 1e-4, "the centroid of the " << ni << " points of the plane is mapped to " << mean.transpose()); }
    REQUIRE(c, (T.linear() * q.head<3>() * (q(3) > 0 ? 1 : -1) - rofl::Vector3(0, 0, 1)).norm() < 1e-4, "the normal is not mapped to Z"); c.state(m * 4 + k);
}
MC_FAMILY(border, "planes orthogonal to an axis with coefficients that are powers of two, every subset of 6 points of which some are exactly at the tolerance on either side: they do not belong to the plane", 3) {
    int ax = c.choose(3), sg = c.choose(2) ? -1 : 1; double k = c.pick({1.0, 4.0, 0.25}), tol = c.pick({0.5, 0.25, 1.0}); unsigned m = c.subset(6); static const double D[6] = {0.5, -0.5, 0.25, -0.25, 1, 0}; std::vector<V> p;
    Eigen::Vector4d q(0, 0, 0, 2 * k); q(ax) = sg * k;
    for (int i = 0; i < 6; ++i) if (m >> i & 1) { V v(1 + i, 8 - 2 * i, i * i - 3); v(ax) = sg * (D[i] - 2); p.push_back(v); }
    DESC(c, "plane " << q.transpose() << " tolerance " << tol << " points " << m); A a; exactBorder = true; check(c, a, q, p, tol); exactBorder = false;
}
MC_FAMILY(two_aligners, "two aligners alive together, each with one of 5 configurations (cloud, plane, tolerance): set both and compute both in either order, or copy one over the other, then the results of both are read", 2) {
    static const double N[5][4] = {{0, 0, 1, 1}, {1, 0, 0, -1}, {0, -0.6, 0.8, 0.5}, {0, 0, -2, 3}, {0.36, 0.48, 0.8, -1.1}}; int k[2] = {c.choose(5), c.choose(5)}, how = c.choose(4); DESC(c, "configurations " << k[0] << " and " << k[1] << " case " << how);
    A a[2], one[2]; auto set = [&](A& x, int i) { A::PointCloudPtr cl(new A::PointCloud); for (size_t q = k[i]; q < PTS.size(); ++q) cl->points.push_back(pcl::PointXYZ((float)PTS[q](0), (float)PTS[q](1), (float)PTS[q](2))); cl->width = cl->points.size(); cl->height = 1; x.setInputCloud(cl); x.setPlaneCoeffs(rofl::Vector4(N[k[i]][0], N[k[i]][1], N[k[i]][2], N[k[i]][3])); x.setPlaneTol(k[i] == 2 ? 5.0f : 0.4f); };
    A::PointCloud o1[2], o2[2]; for (int i = 0; i < 2; ++i) { set(one[i], i); one[i].compute(); one[i].transform(o1[i]); }
    set(a[0], 0); set(a[1], 1); if (how & 1) { a[1].compute(); a[0].compute(); } else { a[0].compute(); a[1].compute(); } if (how >= 2) { a[0] = a[1]; set(a[1], 0); a[1].compute(); }
    for (int i = 0; i < 2; ++i) { int w = how >= 2 ? 1 - i : i; a[i].transform(o2[i]); c.step(3); REQUIRE(c, a[i].getTransform().matrix() == one[w].getTransform().matrix() && a[i].getPlaneCoeffs() == one[w].getPlaneCoeffs(), "with another aligner alive the transformation becomes\n" << a[i].getTransform().matrix() << "\ninstead of\n" << one[w].getTransform().matrix()); REQUIRE(c, o2[i].size() == o1[w].size(), o2[i].size() << " points"); for (size_t q = 0; q < o2[i].size(); ++q) REQUIRE(c, o2[i].points[q].x == o1[w].points[q].x && o2[i].points[q].z == o1[w].points[q].z, "point " << q); }
    { A x; check(c, x, Eigen::Vector4d(N[k[0]][0], N[k[0]][1], N[k[0]][2], N[k[0]][3]), PTS, 0.4); } c.state(mc::mix(k[0] * 5 + k[1], how));
}
MC_MAIN()
