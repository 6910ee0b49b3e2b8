// C29: planar primitives: poses, angles, intervals of angles, orientation of triangles.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/base_geometry2.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;
static const double PI = M_PI;

static void norm(Ctx& c, float a) {
    float r = rofl::normalizeAngle2Pi(a); c.step();
    REQUIRE(c, r >= 0 && (double)r < 2 * PI, "angle " << a << " normalised to " << r << ", out of [0, 2 pi[");
    double d = std::remainder((double)a - (double)r, 2 * PI);
    REQUIRE(c, std::fabs(d) <= 1.5e-6 + 3e-7 * std::fabs(a), "angle " << a << " normalised to " << r << ", which differs by " << d << " from a whole number of turns");
}
static double turn(double x) { double r = std::fmod(x, 2 * PI); if (r < 0) r += 2 * PI; return r; }
static void inside(Ctx& c, float a, float b, float e) {
    double x = turn((double)a - b), w = turn((double)e - b), tol = 4e-6 + 4e-7 * (std::fabs(a) + std::fabs(b) + std::fabs(e));
    bool g1 = rofl::insideAngleInterval(a, b, e), g2 = rofl::insideAngleInterval(a, rofl::AngleInterval(b, e)), g3 = rofl::insideAngleIntervalEq(a, b, e); c.step(3);
    REQUIRE(c, g1 == g2, "the two forms differ");
    REQUIRE(c, !g1 || g3, "inside without equality but not with equality");
    if (a == b) REQUIRE(c, g3, "the begin " << a << " is not in the closed interval to " << e);
    if (a == e) { REQUIRE(c, g3, "the end " << e << " is not in the closed interval from " << b); REQUIRE(c, !g1, "the end " << e << " is in the open interval from " << b); }
    if (a == b && w > tol && w < 2 * PI - tol) REQUIRE(c, g1, "the begin " << b << " is not in the interval to " << e);
    if (x < tol || x > 2 * PI - tol || w < tol || w > 2 * PI - tol || std::fabs(x - w) < tol) return;
    REQUIRE(c, g1 == (x < w) && g3 == (x < w), "angle " << a << " from " << b << " to " << e << ": " << g1 << "/" << g3 << ", expected " << (x < w));
}
MC_FAMILY(turns, "angles k pi/12, |k| <= 2400 (24000), their 1..3 neighbouring floats on both sides and 4 offsets", 1) {
    int n = c.tier(240, 2400), blk = c.choose(20) - 10; c.bulk(11 * n);
    for (int k = blk * n; k < (blk + 1) * n; ++k) {
        float x = (float)(k * (PI / 12)), u = x, d = x; norm(c, x);
        for (int j = 0; j < 3; ++j) { u = std::nextafterf(u, 1e9f); d = std::nextafterf(d, -1e9f); norm(c, u); norm(c, d); }
        for (float o : {0.001f, -0.001f, 0.2f, -0.13f}) norm(c, x + o);
    }
    c.state(blk); DESC(c, "block " << blk);
}
MC_FAMILY(multiples, "whole turns |k| <= 1000 (20000) as floats computed with the float and the exact period, 3 neighbours on both sides", 1) {
    int n = c.tier(100, 2000), blk = c.choose(20) - 10; c.bulk(14 * n);
    for (int k = blk * n; k < (blk + 1) * n; ++k) for (int v = 0; v < 2; ++v) {
        float x = v ? (float)(k * 2 * PI) : k * rofl::K_2PI, u = x, d = x; norm(c, x);
        for (int j = 0; j < 3; ++j) { u = std::nextafterf(u, 1e9f); d = std::nextafterf(d, -1e9f); norm(c, u); norm(c, d); }
    }
    c.state(blk + 100); DESC(c, "block " << blk);
}
MC_FAMILY(all_floats, "every float of magnitude up to 1024 (thorough) or 1 in 7 (quick)", 1) {
    u64 h = c.choose(1 << 11), n = 0; bool neg = h & 1; h >>= 1; uint32_t base = (uint32_t)(h << 21), st = c.tier(7u, 1u); DESC(c, "block " << h << (neg ? " negative" : ""));
    for (uint32_t k = 0; k < (1u << 21); k += st) { uint32_t b = base + k; float f; memcpy(&f, &b, 4); if (!(f <= 1024)) break; norm(c, neg ? -f : f); ++n; }
    c.bulk(n);
}
MC_FAMILY(intervals, "all triples (angle, begin, end) over 49 (97) angles from -2 pi to 2 pi, each with 3 offsets of the angle; thorough tier up to 96", 1) {
    int K = c.tier(24, 48, 96), i = c.range(-K, K), j = c.range(-K, K); c.bulk(3 * (2 * K + 1)); float b = i * (2 * PI / K), e = j * (2 * PI / K);
    for (int k = -K; k <= K; ++k) for (float o : {0.f, 0.05f, -0.05f}) inside(c, (float)(k * (2 * PI / K)) + o, b, e);
    c.state(mc::mix(i + 99, j + 99)); DESC(c, "from " << b << " to " << e);
}
MC_FAMILY(intervals_wide, "begin and end over +-4 turns in steps of 0.7, angle over +-5 turns in steps of 0.31 (0.11); thorough tier up to 0.03f", 1) {
    int i = c.range(-35, 35), j = c.range(-35, 35); float b = 0.7f * i, e = 0.7f * j, st = c.tier(0.31f, 0.11f, 0.03f); u64 n = 0;
    for (float a = -32; a < 32; a += st) { inside(c, a, b, e); ++n; } inside(c, b, b, e); inside(c, e, b, e);
    c.bulk(n); c.state(mc::mix(i + 999, j + 999)); DESC(c, "from " << b << " to " << e);
}
MC_FAMILY(triangles, "all triples of integer points with coordinates -3..3 (-4..4), times 3 scales: exact doubled area and sign, and its symmetries; thorough tier up to 6", 1) {
    int R = c.tier(3, 4, 6), n = 2 * R + 1, p = c.choose(n * n), q = c.choose(n * n); u64 cnt = 0;
    int px = p % n - R, py = p / n - R, qx = q % n - R, qy = q / n - R; DESC(c, "points " << px << "," << py << " " << qx << "," << qy);
    for (int r = 0; r < n * n; ++r) for (float s : {1.f, 1000.f, 0.125f}) {
        int rx = r % n - R, ry = r / n - R; rofl::Vector2 a(px * s, py * s), b(qx * s, qy * s), d(rx * s, ry * s); ++cnt;
        float g = rofl::ccw(a, b, d); c.step(); double w = ((double)(qx - px) * (ry - py) - (double)(qy - py) * (rx - px)) * s * s;
        REQUIRE(c, (double)g == w, "ccw is " << g << ", expected " << w << " with third point " << rx << "," << ry << " scale " << s);
    }
    c.bulk(cnt);
}
MC_FAMILY(far_triangles, "all triples of integer points with coordinates -2..2 (-3..3), moved by 6 offsets up to 1e6: doubled area and sign as near the origin; thorough tier up to 4", 2) {
    int R = c.tier(2, 3, 4), n = 2 * R + 1, p = c.choose(n * n), q = c.choose(n * n), o = c.choose(6); u64 cnt = 0; static const float O[6][2] = {{100, -300}, {4096, 4096}, {-10000, 20000}, {100000, 3}, {0, -250000}, {1000000, 1000000}};
    int px = p % n - R, py = p / n - R, qx = q % n - R, qy = q / n - R; DESC(c, "points " << px << "," << py << " " << qx << "," << qy << " moved by " << O[o][0] << "," << O[o][1]); rofl::Vector2 m(O[o][0], O[o][1]);
    for (int r = 0; r < n * n; ++r) {
        int rx = r % n - R, ry = r / n - R; rofl::Vector2 a = rofl::Vector2(px, py) + m, b = rofl::Vector2(qx, qy) + m, d = rofl::Vector2(rx, ry) + m; ++cnt;
        float g = rofl::ccw(a, b, d); c.step(); double w = (double)(qx - px) * (ry - py) - (double)(qy - py) * (rx - px);
        REQUIRE(c, std::fabs((double)g - w) <= 1e-3, "ccw is " << g << ", expected " << w << " with third point " << rx << "," << ry);
    }
    c.bulk(cnt);
}
MC_FAMILY(poses, "translations over 7x7 values, 97 (385) angles over +-2 turns: image of 5 points, inverse, both forms, previous content overwritten; thorough tier up to 768", 1) {
    static const float V[7] = {0, 1, -2.5f, 10, -100, 0.01f, 3000}; float x = V[c.choose(7)], y = V[c.choose(7)]; int K = c.tier(48, 192, 768); c.bulk(2 * K + 1); DESC(c, "translation " << x << "," << y);
    for (int k = -K; k <= K; ++k) {
        float t = (float)(k * (4 * PI / K)); rofl::Transform2 T, U; T.matrix().setConstant(5); U.matrix().setConstant(-3); rofl::poseToIsometry2(x, y, t, T); rofl::poseToIsometry2(rofl::Vector3(x, y, t), U); c.step(2);
        REQUIRE(c, T.matrix() == U.matrix(), "the two forms differ at angle " << t);
        static const float P[5][2] = {{0, 0}, {1, 0}, {0, 1}, {-2, 3}, {100, -40}};
        for (auto& p : P) {
            rofl::Vector2 g = T * rofl::Vector2(p[0], p[1]); double ex = cos((double)t) * p[0] - sin((double)t) * p[1] + x, ey = sin((double)t) * p[0] + cos((double)t) * p[1] + y, tol = 2e-6 * (1 + std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(x) + std::fabs(y));
            REQUIRE(c, std::fabs(g(0) - ex) <= tol && std::fabs(g(1) - ey) <= tol, "pose " << x << "," << y << "," << t << " maps " << p[0] << "," << p[1] << " to " << g.transpose() << ", expected " << ex << " " << ey);
        }
    }
    c.state(mc::mix((u64)(long)(x * 100), (u64)(long)(y * 100)));
}
MC_MAIN()
