// C26: nearest point of the boundary of a box.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/box_registration.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename S, int D> static void nearest(Ctx& c, const rofl::BoxRegistration<S, D>& b, const double* dim, const double* q) {
    typename rofl::BoxRegistration<S, D>::Point p, n; for (int i = 0; i < D; ++i) p(i) = (S)q[i];
    n.setConstant((S)-77); b.associate(p, n);
    double tol = sizeof(S) == 4 ? 2e-6 : 1e-12, sc = 1, out = 0, in = 1e300; bool face = false, inside = true;
    for (int i = 0; i < D; ++i) { sc = std::max({sc, std::fabs(q[i]), dim[i]}); }
    tol *= sc;
    for (int i = 0; i < D; ++i) {
        double h = dim[i] / 2, x = n(i);
        REQUIRE(c, std::fabs(x) <= h + tol, "nearest point " << n.transpose() << " is outside of the box");
        if (std::fabs(std::fabs(x) - h) <= tol) face = true;
        double e = std::max(0.0, std::fabs(q[i]) - h); out += e * e; if (std::fabs(q[i]) > h) inside = false; else in = std::min(in, h - std::fabs(q[i]));
    }
    REQUIRE(c, face, "nearest point " << n.transpose() << " is not on the boundary");
    double want = inside ? in : std::sqrt(out), got = 0; for (int i = 0; i < D; ++i) got += (n(i) - q[i]) * (n(i) - q[i]);
    got = std::sqrt(got);
    REQUIRE(c, std::fabs(got - want) <= 2 * tol, "nearest point " << n.transpose() << " is at distance " << got << ", the boundary is at " << want);
    c.step();
}
template <typename S> static void run2(Ctx& c) {
    double dim[2] = {c.pick({1.0, 0.25, 2.0, 3.0, 7.0, 0.0}), c.pick({1.0, 0.25, 2.0, 3.0, 7.0, 0.0})}, st = c.pick({0.25, 0.3}); int R = c.tier(24, 60), x = c.range(-R, R);
    rofl::BoxRegistration<S, 2> b; typename rofl::BoxRegistration<S, 2>::Point d; d << (S)dim[0], (S)dim[1]; b.setDimension(d);
    c.state(mc::mix(mc::mix(dim[0] * 8, dim[1] * 8), x)); c.bulk(2 * R + 1);
    for (int y = -R; y <= R; ++y) { double q[2] = {x * st, y * st}; DESC(c, (y == -R ? "box " : "\nbox ") << dim[0] << "x" << dim[1] << " query " << q[0] << "," << q[1]); nearest<S, 2>(c, b, dim, q); }
}
template <typename S> static void run3(Ctx& c) {
    double dim[3] = {c.pick({1.0, 2.0, 0.5, 0.0}), c.pick({1.0, 2.0, 3.5, 0.0}), c.pick({1.0, 2.0, 0.75, 0.0})}; int R = c.tier(12, 20), x = c.range(-R, R), y = c.range(-R, R);
    rofl::BoxRegistration<S, 3> b; typename rofl::BoxRegistration<S, 3>::Point d; d << (S)dim[0], (S)dim[1], (S)dim[2]; b.setDimension(d);
    c.state(mc::mix(mc::mix(mc::mix(dim[0] * 8, dim[1] * 8), mc::mix(dim[2] * 8, x)), y)); c.bulk(2 * R + 1);
    for (int z = -R; z <= R; ++z) { double q[3] = {x * 0.23, y * 0.23, z * 0.23}; DESC(c, (z == -R ? "box " : "\nbox ") << dim[0] << "x" << dim[1] << "x" << dim[2] << " query " << q[0] << "," << q[1] << "," << q[2]); nearest<S, 3>(c, b, dim, q); }
}
MC_FAMILY(plane_double, "2D, double: 36 boxes, all queries of a grid of 49x49 (121x121) points with 2 spacings", 3) { run2<double>(c); }
MC_FAMILY(plane_float, "2D, float: 36 boxes, all queries of a grid of 49x49 (121x121) points with 2 spacings", 3) { run2<float>(c); }
MC_FAMILY(space_double, "3D, double: 64 boxes (flat ones included), all queries of a grid of 25^3 (41^3) points", 3) { run3<double>(c); }
MC_FAMILY(space_float, "3D, float: 64 boxes (flat ones included), all queries of a grid of 25^3 (41^3) points", 3) { run3<float>(c); }
MC_FAMILY(corners, "3D: every combination of coordinates at -1.5, -1, -0.999, -0.5, 0, 0.5, 0.999, 1, 1.5 half sides, box of sides 0, 1e-3..1e3; the object was used with other sides before", 2) {
    static const double K[9] = {0, -1.5, -1, -0.999, -0.5, 0.5, 0.999, 1, 1.5}; double dim[3] = {c.pick({1.0, 1e3, 1e-3, 0.0}), c.pick({1.0, 1e3, 1e-3, 0.0}), c.pick({1.0, 1e3, 1e-3, 0.0})};
    rofl::BoxRegistration3d b; b.setDimension(Eigen::Vector3d(5, 0.5, 9)); Eigen::Vector3d used; b.associate(Eigen::Vector3d(1, 2, 3), used); b.setDimension(Eigen::Vector3d(dim[0], dim[1], dim[2])); int i = c.choose(9), j = c.choose(9); c.bulk(9); c.state(mc::mix(mc::mix(i * 9 + j, dim[0] * 1000), mc::mix(dim[1] * 1000, dim[2] * 1000)));
    for (int k = 0; k < 9; ++k) { double q[3] = {K[i] * dim[0] / 2, K[j] * dim[1] / 2, K[k] * dim[2] / 2}; DESC(c, (k == 0 ? "box " : "\nbox ") << dim[0] << "x" << dim[1] << "x" << dim[2] << " query " << q[0] << "," << q[1] << "," << q[2]); nearest<double, 3>(c, b, dim, q); }
}
MC_FAMILY(far, "2D and 3D: queries with coordinates over 0, +-0.4, +-1e3, +-1e6, boxes of sides over 0.1, 1, 50", 2) {
    static const double K[7] = {0, 0.4, -0.4, 1e3, -1e3, 1e6, -1e6};
    double dim[3] = {c.pick({0.1, 1.0, 50.0}), c.pick({0.1, 1.0, 50.0}), c.pick({0.1, 1.0, 50.0})}; int i = c.choose(7); c.bulk(56); c.state(mc::mix(mc::mix(i, dim[0] * 1000), mc::mix(dim[1] * 1000, dim[2] * 1000)));
    rofl::BoxRegistration3d b; b.setDimension(Eigen::Vector3d(dim[0], dim[1], dim[2])); rofl::BoxRegistration2d b2; b2.setDimension(Eigen::Vector2d(dim[0], dim[1]));
    for (double y : K) for (double z : K) { double q[3] = {K[i], y, z}; DESC(c, "box " << dim[0] << "x" << dim[1] << "x" << dim[2] << " query " << q[0] << "," << q[1] << "," << q[2] << "\n"); nearest<double, 3>(c, b, dim, q); if (z == 0) nearest<double, 2>(c, b2, dim, q); }
}
MC_FAMILY(two_boxes, "two boxes alive together, each with sides over {1, 0.25, 3}^D (and again set in turns), queries alternating, 2D and 3D, float and double", 2) {
    static const double K[3] = {1.0, 0.25, 3.0}; double da[3], db[3]; for (double& x : da) x = K[c.choose(3)]; for (double& x : db) x = K[c.choose(3)]; int how = c.choose(3); DESC(c, "boxes " << da[0] << "x" << da[1] << "x" << da[2] << " and " << db[0] << "x" << db[1] << "x" << db[2] << " case " << how);
    auto run = [&](auto s0) { typedef decltype(s0) S; typedef rofl::BoxRegistration<S, 2> B2; typedef rofl::BoxRegistration<S, 3> B3; B2 a2, b2; B3 a3, b3;
        if (how == 1) { b2.setDimension(typename B2::Point((S)db[0], (S)db[1])); b3.setDimension(typename B3::Point((S)db[0], (S)db[1], (S)db[2])); }
        a2.setDimension(typename B2::Point((S)da[0], (S)da[1])); a3.setDimension(typename B3::Point((S)da[0], (S)da[1], (S)da[2]));
        if (how != 1) { if (how == 2) { b2 = a2; b3 = a3; } b2.setDimension(typename B2::Point((S)db[0], (S)db[1])); b3.setDimension(typename B3::Point((S)db[0], (S)db[1], (S)db[2])); }
        for (int k = 0; k < 40; ++k) { double q[3] = {2.2 * cos(k * 0.7) * (k % 5) / 4, 1.9 * sin(k * 1.3) * (k % 3) / 2, 1.7 * cos(k * 1.9 + 1)}; nearest<S, 2>(c, a2, da, q); nearest<S, 3>(c, b3, db, q); nearest<S, 3>(c, a3, da, q); nearest<S, 2>(c, b2, db, q); } };
    run(0.0); run(0.0f); u64 h = how; for (double x : da) h = mc::mix(h, x * 8); for (double x : db) h = mc::mix(h, x * 8); c.state(h);
}
MC_MAIN()
