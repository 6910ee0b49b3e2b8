// C35: the geometric types against integer arithmetic.
// LIBS: geometry common
// QUICK: 1
#include <rofl/geometry/types.h>
#include <boost/geometry.hpp>
#include "mc.h"
using mc::Ctx;
using mc::u64;
namespace bg = boost::geometry;
typedef std::pair<int, int> P;
static long cross(P a, P b, P c) { return (long)(b.first - a.first) * (c.second - a.second) - (long)(b.second - a.second) * (c.first - a.first); }
static bool onSeg(P a, P b, P p) { return cross(a, b, p) == 0 && std::min(a.first, b.first) <= p.first && p.first <= std::max(a.first, b.first) && std::min(a.second, b.second) <= p.second && p.second <= std::max(a.second, b.second); }
static bool simple(const std::vector<P>& v) {
    int n = v.size();
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (v[i] == v[j]) return false;
    auto sg = [](long x) { return (x > 0) - (x < 0); };
    for (int i = 0; i < n; ++i) { if (cross(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) return false;
        for (int j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; P a = v[i], b = v[(i + 1) % n], p = v[j], q = v[(j + 1) % n];
            if (onSeg(a, b, p) || onSeg(a, b, q) || onSeg(p, q, a) || onSeg(p, q, b) || (sg(cross(a, b, p)) * sg(cross(a, b, q)) < 0 && sg(cross(p, q, a)) * sg(cross(p, q, b)) < 0)) return false; } }
    return true;
}
static long area2(const std::vector<P>& v) { long s = 0; for (size_t i = 0; i < v.size(); ++i) { P a = v[i], b = v[(i + 1) % v.size()]; s += (long)a.first * b.second - (long)b.first * a.second; } return s; }
static bool inside(const std::vector<P>& v, P p) { bool in = false; for (size_t i = 0; i < v.size(); ++i) { P a = v[i], b = v[(i + 1) % v.size()]; if ((a.second > p.second) != (b.second > p.second)) { long s = cross(a, b, p); if ((b.second > a.second) == (s > 0)) in = !in; } } return in; }
static rofl::Vector2 vec(P p) { return rofl::Vector2(p.first, p.second); }

static void polygon(Ctx& c, const std::vector<P>& v, int side) {
    if (!simple(v)) return;
    long s2 = area2(v); rofl::Polygon2 p; for (auto& q : v) p.outer().push_back(vec(q));
    u64 h = v.size(); for (auto& q : v) { h = mc::mix(h, q.first * 16 + q.second); DESC(c, "(" << q.first << "," << q.second << ") "); } c.state(h); c.step();
    REQUIRE(c, std::fabs(bg::area(p) - s2 / 2.0) < 1e-4, "area " << bg::area(p) << " expected " << s2 / 2.0 << " (positive counter-clockwise)");
    double per = 0; for (size_t i = 0; i < v.size(); ++i) per += std::hypot(v[i].first - v[(i + 1) % v.size()].first, v[i].second - v[(i + 1) % v.size()].second);
    REQUIRE(c, std::fabs(bg::perimeter(p) - per) < 1e-3, "perimeter " << bg::perimeter(p) << " expected " << per);
    rofl::Polygon2 k(p); bg::correct(k);
    REQUIRE(c, std::fabs(bg::area(k) - std::labs(s2) / 2.0) < 1e-4 && bg::num_points(k) == v.size(), "the corrected polygon has area " << bg::area(k) << " and " << bg::num_points(k) << " points");
    REQUIRE(c, bg::is_valid(k), "the corrected polygon is not valid");
    for (int x = -1; x <= side; ++x) for (int y = -1; y <= side; ++y) {
        P q{x, y}; bool on = false; for (size_t i = 0; i < v.size(); ++i) on |= onSeg(v[i], v[(i + 1) % v.size()], q);
        bool in = !on && inside(v, q); c.step();
        REQUIRE(c, bg::within(vec(q), k) == in && bg::covered_by(vec(q), k) == (in || on), "point (" << x << "," << y << ") is reported " << (bg::within(vec(q), k) ? "inside" : "not inside"));
    }
    rofl::Box2 b; bg::envelope(k, b); P lo = v[0], hi = v[0]; for (auto& q : v) { lo = {std::min(lo.first, q.first), std::min(lo.second, q.second)}; hi = {std::max(hi.first, q.first), std::max(hi.second, q.second)}; }
    REQUIRE(c, b.min_corner() == vec(lo) && b.max_corner() == vec(hi), "wrong bounding box");
    rofl::VectorPolygon2 m(2, k); for (auto& q : m[1].outer()) q += rofl::Vector2(100, 50);
    REQUIRE(c, std::fabs(bg::area(m) - std::labs(s2)) < 1e-2, "two copies have area " << bg::area(m));
    rofl::VectorVector2 ring; for (size_t i = 0; i <= v.size(); ++i) ring.push_back(vec(v[i % v.size()]));
    REQUIRE(c, std::fabs(bg::area(ring) + s2 / 2.0) < 1e-4, "a closed ring of vectors has area " << bg::area(ring) << " expected " << -s2 / 2.0 << " (positive clockwise)");
}
MC_FAMILY(polygons, "every triangle and quadrilateral with vertices on a 4 by 4 lattice (5 by 5 thorough): signed area, perimeter, orientation, membership of all lattice points, bounding box, multipolygon", 4) {
    int side = c.tier(4, 4, 5), n = c.range(3, 4); std::vector<P> v; for (int i = 0; i < n; ++i) v.push_back({c.choose(side), c.choose(side)});
    polygon(c, v, side);
}
MC_FAMILY(pentagons, "every pentagon with vertices on a 3 by 3 lattice", 4) { std::vector<P> v; for (int i = 0; i < 5; ++i) v.push_back({c.choose(3), c.choose(3)}); polygon(c, v, 3); }
MC_FAMILY(segments, "all pairs of segments and of segment and point on a 4 by 4 lattice: distance", 4) {
    P a{c.choose(4), c.choose(4)}, b{c.choose(4), c.choose(4)}, p{c.choose(4), c.choose(4)}; if (a == b) return;
    rofl::Segment2 s(vec(a), vec(b)); double l2 = std::pow(b.first - a.first, 2) + std::pow(b.second - a.second, 2), t = ((p.first - a.first) * (b.first - a.first) + (p.second - a.second) * (b.second - a.second)) / l2; t = std::min(1.0, std::max(0.0, t));
    double d = std::hypot(a.first + t * (b.first - a.first) - p.first, a.second + t * (b.second - a.second) - p.second); c.step(); c.state(mc::mix(a.first * 4 + a.second, mc::mix(b.first * 4 + b.second, p.first * 4 + p.second)));
    REQUIRE(c, std::fabs(bg::distance(vec(p), s) - d) < 1e-5 && std::fabs(bg::length(s) - std::sqrt(l2)) < 1e-5, "distance " << bg::distance(vec(p), s) << " expected " << d);
}
template <typename T> static void sized(Ctx& c, const char* n, int r, int k) { T v = T::Zero(); REQUIRE(c, v.rows() == r && v.cols() == k, n << " is " << v.rows() << " by " << v.cols()); for (int i = 0; i < v.rows(); ++i) v(i, 0) = i + 1; c.step(); REQUIRE(c, v.col(0).sum() == r * (r + 1) / 2, n << " does not hold " << r << " values"); }
MC_FAMILY(sizes, "vectors of 2 to 7 and square matrices of 2 to 6 components, transforms, constants", 1) {
    int n = c.range(2, 7); c.state(n); DESC(c, n << " components");
    switch (n) {
        case 2: sized<rofl::Vector2>(c, "Vector2", 2, 1); sized<rofl::Matrix2>(c, "Matrix2", 2, 2); break;
        case 3: sized<rofl::Vector3>(c, "Vector3", 3, 1); sized<rofl::Matrix3>(c, "Matrix3", 3, 3); break;
        case 4: sized<rofl::Vector4>(c, "Vector4", 4, 1); sized<rofl::Matrix4>(c, "Matrix4", 4, 4); break;
        case 5: sized<rofl::Vector5>(c, "Vector5", 5, 1); sized<rofl::Matrix5>(c, "Matrix5", 5, 5); break;
        case 6: sized<rofl::Vector6>(c, "Vector6", 6, 1); sized<rofl::Matrix6>(c, "Matrix6", 6, 6); break;
        case 7: sized<rofl::Vector7>(c, "Vector7", 7, 1); break;
    }
    rofl::Transform2 t2 = rofl::Transform2::Identity(); rofl::Transform3 t3 = rofl::Transform3::Identity();
    REQUIRE(c, (t2 * rofl::Vector2(1, 2) == rofl::Vector2(1, 2)) && (t3 * rofl::Vector3(1, 2, 3) == rofl::Vector3(1, 2, 3)), "identity transforms");
    REQUIRE(c, rofl::K_PI == (rofl::Scalar)M_PI && rofl::K_2PI == (rofl::Scalar)(2 * M_PI), "constants");
}
MC_MAIN()
