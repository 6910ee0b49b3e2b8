// C21: Fourier series: values and bounds on intervals.
// QUICK: 1
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/functions.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;
static const double PI = M_PI;
typedef std::vector<double> V;
static std::string show(const V& v) { std::ostringstream o; o << "["; for (double x : v) o << x << " "; o << "]"; return o.str(); }

// ---- value of the series
static void value(Ctx& c, const V& co, double th) {
    double w = 0, s = 1; int n = (int)co.size() / 2;
    for (int k = 0; k < n; ++k) { w += co[2 * k] * std::cos(k * (long double)th) + co[2 * k + 1] * std::sin(k * (long double)th); s += std::fabs(co[2 * k]) + std::fabs(co[2 * k + 1]); }
    double g = rofl::evaluateFourier(co, th);
    if (!(std::fabs(g - w) <= 1e-12 * s * (n + 1) * (1 + std::fabs(th)))) REQUIRE(c, false, "series " << show(co) << " at " << th << " = " << g << " expected " << w);
}
MC_FAMILY(series_small, "every coefficient vector of 1..4 (5) harmonics over {0, 1, -2} (first harmonic constant included), 25 points over [-2 pi, 2 pi]; thorough tier up to 6", 2) {
    int n = c.range(1, c.tier(4, 5, 6)); static const double A[3] = {0, 1, -2};
    V co; for (int i = 0; i < 2 * n; ++i) co.push_back(A[c.choose(3)]);
    DESC(c, show(co));
    u64 h = n; for (double x : co) h = mc::mix(h, (u64)(long)(x + 5)); c.state(h);
    for (int k = -12; k <= 12; ++k) { value(c, co, k * PI / 6 + (k % 3) * 0.01); c.step(); }
}
MC_FAMILY(series_unit, "a single unit coefficient at every place of vectors of 1..24 (1..60), 35, 50, 64, 100, 129 and 200 harmonics, 4 scales, 96 points over [-8 pi, 8 pi]; the empty vector", 1) {
    static const int BIG[6] = {35, 50, 64, 100, 129, 200}; int K = c.tier(24, 60), n = c.choose(K + 7); if (n > K) n = BIG[n - K - 1];
    if (n == 0) { c.step(); REQUIRE(c, rofl::evaluateFourier(V(), 1.0) == 0, "empty series"); return; }
    int p = c.choose(2 * n); double s = c.pick({1.0, -1.0, 1e-3, 1e5});
    V co(2 * n, 0.0); co[p] = s; DESC(c, n << " harmonics, coefficient " << p << " = " << s);
    c.state(mc::mix(mc::mix(n, p), (u64)(long)(s * 1e3)));
    for (int k = -48; k < 48; ++k) { value(c, co, k * PI / 6 + 0.1 * (k % 5)); c.step(); }
}
// ---- exact range of the cosine on [a,b]
static void cosRange(double a, double b, double& mn, double& mx) {
    if (a > b) std::swap(a, b);
    long double P = 2 * 3.14159265358979323846264338327950288L;
    auto hits = [&](long double off) { long double k = std::ceil((a - off) / P - 1e-15L); return off + k * P <= b + 1e-15L * (1 + std::fabs(b)); };
    mx = hits(0) ? 1 : std::max(std::cos(a), std::cos(b));
    mn = hits(P / 2) ? -1 : std::min(std::cos(a), std::cos(b));
}
static void cosine(Ctx& c, double a, double b) {
    double mn, mx, gn = 7, gx = 7; cosRange(a, b, mn, mx);
    rofl::findLUCos(a, b, gn, gx);
    // near the turning points the range varies with the square of the rounding of the angle
    double t = 1e-12 + 1e-15 * (std::fabs(a) + std::fabs(b));
    if (!(std::fabs(gn - mn) <= t && std::fabs(gx - mx) <= t)) REQUIRE(c, false, "range of cosine on [" << a << "," << b << "] = [" << gn << "," << gx << "] expected [" << mn << "," << mx << "]");
}
MC_FAMILY(cosine_grid, "all pairs of endpoints k pi/12, |k| <= 60 (120), both orders, each endpoint displaced by 0, +-1e-9, +-0.05", 1) {
    int K = c.tier(60, 120), a = c.range(-K, K); u64 n = 0;
    static const double D[5] = {0, 1e-9, -1e-9, 0.05, -0.05};
    DESC(c, "first endpoint " << a << " pi/12");
    for (int b = -K; b <= K; ++b) for (double da : D) for (double db : D) { cosine(c, a * PI / 12 + da, b * PI / 12 + db); ++n; }
    c.bulk(n); c.step(n);
}
MC_FAMILY(cosine_neighbours, "endpoints at multiples of pi/2 within +-10 turns and their neighbouring doubles, and tiny numbers 0, +-1e-20, +-1e-300, against each other", 1) {
    static V p; if (p.empty()) { for (int k = -40; k <= 40; ++k) { double x = k * (PI / 2); p.push_back(x); p.push_back(std::nextafter(x, 1e9)); p.push_back(std::nextafter(x, -1e9)); } for (double t : {1e-20, -1e-20, 1e-300, -1e-300, 1e-9, -1e-9}) p.push_back(t); }
    double a = p[c.choose(p.size())]; u64 n = 0; DESC(c, "first endpoint " << a);
    for (double b : p) { cosine(c, a, b); ++n; }
    c.bulk(n); c.step(n);
}
// ---- bounds of a series (harmonics of period pi / k)
static void bounds(Ctx& c, const V& co, double a, double b, bool dense) {
    c.step();
    double lo = 1e9, hi = -1e9; rofl::findLUFourier(co, a, b, lo, hi);
    if (a > b) std::swap(a, b);
    int n = co.size() / 2; double wl = co[0], wh = co[0], s = 1 + std::fabs(co[0]);
    for (int k = 1; k < n; ++k) {
        double A = std::hypot(co[2 * k], co[2 * k + 1]), ph = std::atan2(co[2 * k + 1], co[2 * k]), mn, mx;
        cosRange(2 * k * a - ph, 2 * k * b - ph, mn, mx); wl += A * mn; wh += A * mx; s += A;
    }
    double t = 1e-11 * s * n * (1 + std::fabs(a) + std::fabs(b));
    REQUIRE(c, std::fabs(lo - wl) <= t && std::fabs(hi - wh) <= t, "bounds of " << show(co) << " on [" << a << "," << b << "] = [" << lo << "," << hi << "], sum of the ranges of the harmonics [" << wl << "," << wh << "]");
    int m = dense ? 64 : 12;
    for (int i = 0; i <= m; ++i) {
        double x = a + (b - a) * i / m, v = 0;
        for (int k = 0; k < n; ++k) v += co[2 * k] * std::cos(2 * k * x) + co[2 * k + 1] * std::sin(2 * k * x);
        REQUIRE(c, v >= lo - t && v <= hi + t, "the series " << show(co) << " is " << v << " at " << x << ", outside the bounds [" << lo << "," << hi << "] given for [" << a << "," << b << "]");
    }
}
MC_FAMILY(bounds_small, "every coefficient vector of 1..3 harmonics over {0, 1, -2}, all pairs of endpoints over 13 (25) points of [-pi, pi]; thorough tier up to 24", 2) {
    int n = c.range(1, 3); static const double A[3] = {0, 1, -2};
    V co; for (int i = 0; i < 2 * n; ++i) co.push_back(A[c.choose(3)]);
    DESC(c, show(co));
    u64 h = n + 50; for (double x : co) h = mc::mix(h, (u64)(long)(x + 5)); c.state(h);
    int m = c.tier(6, 12, 24);
    for (int i = -m; i <= m; ++i) for (int j = -m; j <= m; ++j) bounds(c, co, i * PI / m + 0.003 * (i & 1), j * PI / m, false);
}
MC_FAMILY(bounds_unit, "one or two unit coefficients in vectors of up to 12 (24) harmonics, intervals of 10 widths at 12 places; thorough tier up to 40", 2) {
    int n = c.range(1, c.tier(12, 24, 40)), p = c.choose(2 * n), q = c.choose(p + 1);
    V co(2 * n, 0.0); co[p] += 1.5; co[q] -= 0.75;
    DESC(c, show(co)); c.state(mc::mix(mc::mix(n + 90, p), q));
    for (int i = 0; i < 12; ++i) for (double w : {0.0, 1e-6, 0.01, 0.1, 0.3, 0.7, 1.0, 1.6, 3.2, 9.0}) bounds(c, co, i * 0.61 - 3, i * 0.61 - 3 + w, true);
}
MC_FAMILY(bounds_far, "1..3 harmonics with amplitudes 1e-6, 1, 1e4 and 16 phases, intervals of 8 widths starting at 21 places within +-30 turns, both orders of the endpoints", 2) {
    int n = c.range(2, 4), ph = c.choose(16); double A = c.pick({1e-6, 1.0, 1e4}), c0 = c.pick({0.0, -3.0, 1e3});
    V co(2 * n, 0.0); co[0] = c0; co[1] = 5;  // the sine of the constant harmonic has no effect
    co[2 * n - 2] = A * std::cos(ph * PI / 8); co[2 * n - 1] = A * std::sin(ph * PI / 8);
    DESC(c, show(co)); c.state(mc::mix(mc::mix(n + 190, ph), (u64)(A * 1e7 + c0)));
    for (int i = -10; i <= 10; ++i) for (double w : {0.0, 1e-9, 0.05, 0.4, 0.79, 1.57, 3.15, 40.0}) { bounds(c, co, i * 18.7, i * 18.7 + w, true); bounds(c, co, i * 18.7 + w, i * 18.7, false); }
}
MC_FAMILY(cosine_far, "endpoints at k pi/6 + offset around 10^2, 10^3, 10^4 turns, all pairs of 49 places, both orders", 1) {
    double base = c.pick({1e2, 1e3, 1e4, -1e2, -1e3, -1e4}) * 2 * PI; int a = c.range(-24, 24); u64 n = 0;
    DESC(c, "around " << base << " first endpoint " << a << " pi/6");
    for (int b = -24; b <= 24; ++b) for (double d : {0.01, -0.01, 0.2}) { cosine(c, base + a * PI / 6 + d, base + b * PI / 6 + d); ++n; }
    c.bulk(n); c.step(n);
}
MC_MAIN()
