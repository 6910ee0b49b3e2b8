// C20: fast trigonometry and angle normalisation on enumerated inputs.
// QUICK: 1
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/functions.h>
#include <limits>
#include "mc.h"
using mc::Ctx;
using mc::u64;
static const long double PI = 3.14159265358979323846264338327950288L;
static inline float f32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline double f64(u64 b) { double f; memcpy(&f, &b, 8); return f; }

static void trigD(Ctx& c, double x) {
    double cs = 9, sn = 9; rofl::fastCosSin(x, cs, sn);
    double tol = 1.2e-3 + std::fabs(x) * 1e-15;
    if (!(std::fabs(cs - std::cos(x)) <= tol && std::fabs(sn - std::sin(x)) <= tol)) REQUIRE(c, false, "fastCosSin(" << x << ") = " << cs << "," << sn << " expected " << std::cos(x) << "," << std::sin(x));
}
static void trigF(Ctx& c, float x) {
    float cs = 9, sn = 9; rofl::fastCosSinf(x, cs, sn);
    double tol = 1.2e-3 + std::fabs(x) * 2.5e-7, rc = std::cos((double)x), rs = std::sin((double)x);
    if (!(std::fabs(cs - rc) <= tol && std::fabs(sn - rs) <= tol)) REQUIRE(c, false, "fastCosSinf(" << x << ") = " << cs << "," << sn << " expected " << rc << "," << rs);
}
MC_FAMILY(cossin_float, "fastCosSinf: every float of magnitude up to 1024 with all low mantissa bits (thorough) or 1 in 3 (quick)", 1) {
    u64 h = c.choose(1 << 11), n = 0; bool neg = h & 1; h >>= 1;     // 10 bits: exponent and 2 mantissa bits
    DESC(c, "float block " << h << (neg ? " negative" : ""));
    for (u64 l = 0; l < (1 << 21); l += c.thorough() ? 1 : 3) { uint32_t b = (uint32_t)(h << 21 | l); float f = f32(b); if (!(f <= 1024)) break; trigF(c, neg ? -f : f); ++n; }
    c.bulk(n); c.step(n);
}
MC_FAMILY(cossin_double, "fastCosSin: multiples k pi/720 for |k| <= 72000 and 5 offsets around each; all doubles +-2^e (1+m/64), e -1070..10", 1) {
    int blk = c.choose(288); u64 n = 0;
    DESC(c, "angle block " << blk);
    for (int k = (blk - 144) * 500; k < (blk - 143) * 500; ++k) for (double d : {0.0, 1e-12, -1e-12, 1e-3, -1e-3}) { trigD(c, (double)(k * PI / 720) + d); ++n; }
    for (int e = 10 - blk; e > -1070; e -= 288) for (int m = 0; m < 64; ++m) { double x = std::ldexp(1 + m / 64.0, e); trigD(c, x); trigD(c, -x); n += 2; }
    c.bulk(n); c.step(n);
}
MC_FAMILY(cossin_switch, "multiples of pi/4 and of pi/2 + pi/1000 up to 400 turns: the float and the double, and 8 neighbouring values on both sides", 1) {
    int blk = c.choose(64); u64 n = 0;
    DESC(c, "block " << blk);
    for (int k = (blk - 32) * 100; k <= (blk - 31) * 100; ++k) for (long double off : {0.0L, PI / 1000, -PI / 1000}) {
        double a = (double)(k * PI / 4 + off), u = a, d = a; float f = (float)a, fu = f, fd = f;
        trigD(c, a); if (std::fabs(f) <= 1024) trigF(c, f);
        for (int i = 0; i < 8; ++i) { u = std::nextafter(u, 1e30); d = std::nextafter(d, -1e30); fu = std::nextafterf(fu, 1e30f); fd = std::nextafterf(fd, -1e30f); trigD(c, u); trigD(c, d); if (std::fabs(f) <= 1000) { trigF(c, fu); trigF(c, fd); } n += 4; }
    }
    c.bulk(n); c.step(n);
}
MC_FAMILY(cossin_far, "fastCosSin: +-2^e (1+m/1024), e 10..36", 1) {
    int e = c.range(10, 36); u64 n = 0;
    DESC(c, "exponent " << e);
    for (int m = 0; m < 1024; ++m) { double x = std::ldexp(1 + m / 1024.0, e); trigD(c, x); trigD(c, -x); n += 2; }
    c.bulk(n); c.step(n);
}
MC_FAMILY(atan_float, "fastAtanf: every float in [-1,1] (thorough) or 1 in 3 (quick)", 1) {
    u64 h = c.choose(1 << 10), n = 0; bool neg = h & 1; h >>= 1;
    DESC(c, "float block " << h << (neg ? " negative" : ""));
    for (u64 l = 0; l < (1 << 22); l += c.thorough() ? 1 : 3) { float f = f32((uint32_t)(h << 22 | l)); if (!(f <= 1)) break; if (neg) f = -f; double w = std::atan((double)f), g = rofl::fastAtanf(f); if (!(std::fabs(g - w) <= 1.3e-5)) REQUIRE(c, false, "fastAtanf(" << f << ") = " << g << " expected " << w); ++n; }
    float one = rofl::fastAtanf(neg ? -1.f : 1.f); REQUIRE(c, std::fabs(one - (neg ? -M_PI_4 : M_PI_4)) <= 1.3e-5, "fastAtanf at the border = " << one);
    c.bulk(n); c.step(n);
}
MC_FAMILY(atan_double, "fastAtan: k/2^20 for |k| <= 2^20 (every third in the quick tier) and +-2^-e (1+m/64)", 1) {
    int blk = c.choose(1024); u64 n = 0;
    DESC(c, "block " << blk);
    auto one = [&](double x) { double w = std::atan(x), g = rofl::fastAtan(x); ++n; if (!(std::fabs(g - w) <= 1.3e-5)) REQUIRE(c, false, "fastAtan(" << x << ") = " << g << " expected " << w); };
    for (int k = blk * 1024; k <= (blk + 1) * 1024; k += c.tier(3, 1)) { one(k / 1048576.0); one(-k / 1048576.0); }
    if (blk > 0 && blk < 1000) for (int m = 0; m < 64; ++m) { double x = std::ldexp(1 + m / 64.0, -blk); one(x); one(-x); }
    c.bulk(n); c.step(n);
}
static void at2(Ctx& c, double x, double y, u64& n) {
    ++n;
    double w = std::atan2(y, x), g = rofl::fastAtan2(x, y);
    if (!(std::fabs(g - w) <= 1.3e-5)) REQUIRE(c, false, "fastAtan2(x=" << x << ", y=" << y << ") = " << g << " expected " << w);
    float xf = (float)x, yf = (float)y;
    if (xf == 0 && yf == 0) return;
    double wf = std::atan2((double)yf, (double)xf), gf = rofl::fastAtan2f(xf, yf);
    if (!(std::fabs(gf - wf) <= 1.4e-5)) REQUIRE(c, false, "fastAtan2f(x=" << xf << ", y=" << yf << ") = " << gf << " expected " << wf);
}
MC_FAMILY(atan2_grid, "all integer points (x,y) != 0 with |x|,|y| <= 200 (600): the four quadrants, axes and diagonals, times 3 scales; thorough tier up to 2000", 1) {
    int R = c.tier(200, 600, 2000), x = c.range(-R, R); u64 n = 0;
    DESC(c, "x " << x);
    for (int y = -R; y <= R; ++y) if (x || y) for (double s : {1.0, 1e-7, 3e8}) at2(c, x * s, y * s, n);
    c.bulk(n); c.step(n);
}
MC_FAMILY(atan2_ulp, "points next to the axes and the diagonals: (a, a+-k ulp), (a, +-k denormal), k 0..4, a = +-2^e (1, 1.1, 1.9), e -100..100", 1) {
    int e = c.range(-100, 100); u64 n = 0;
    DESC(c, "exponent " << e);
    for (double m : {1.0, 1.1, 1.9}) for (int sg = 0; sg < 4; ++sg) {
        double a = std::ldexp(m, e), up = a, dn = a;
        for (int k = 0; k < 5; ++k) {
            double x = sg & 1 ? -a : a;
            for (double y : {up, dn, k * 5e-324, k * 1e-300, a * k * 1e-9}) { if (sg & 2) y = -y; at2(c, x, y, n); at2(c, y, x, n); }
            up = std::nextafter(up, 1e300); dn = std::nextafter(dn, 0.0);
        }
    }
    c.bulk(n); c.step(n);
}
MC_FAMILY(atan2_mixed, "all pairs over 0, -0 and +-(2^e, 1.37*2^e), e -120..120 by 3, not both zero", 1) {
    static std::vector<double> v; if (v.empty()) { v = {0.0, -0.0}; for (int e = -120; e <= 120; e += 3) for (double m : {1.0, 1.37}) { v.push_back(std::ldexp(m, e)); v.push_back(-std::ldexp(m, e)); } }
    double x = v[c.choose(v.size())]; u64 n = 0;
    DESC(c, "x " << x);
    for (double y : v) if (x != 0 || y != 0) at2(c, x, y, n);
    c.bulk(n); c.step(n);
}
// Normalisation: in the interval, and the same direction.
static void norm(Ctx& c, double a, u64& n) {
    ++n;
    for (int half = 0; half < 2; ++half) {
        double r = half ? rofl::normalize180(a) : rofl::normalize360(a), P = half ? M_PI : 2 * M_PI;
        if (!(r >= 0 && r < P)) REQUIRE(c, false, (half ? "normalize180(" : "normalize360(") << std::hexfloat << a << ") = " << r << " is outside [0, " << (half ? "pi" : "2 pi") << "[");
        long double PL = half ? PI : 2 * PI, k = ((long double)a - r) / PL, d = std::fabs(k - std::round(k)) * PL;
        if (!(d <= 1e-14 + 1e-15 * std::fabs(a))) REQUIRE(c, false, (half ? "normalize180(" : "normalize360(") << a << ") = " << r << " is not congruent to the angle (difference " << (double)d << ")");
    }
}
MC_FAMILY(normalise_turns, "angles k pi/12, |k| <= 24000 (1000 turns): the angle itself and its 1..3 neighbouring doubles on both sides, and 4 offsets", 1) {
    int blk = c.choose(240); u64 n = 0;
    DESC(c, "angle block " << blk);
    for (int k = (blk - 120) * 200; k <= (blk - 119) * 200; ++k) for (int form = 0; form < 3; ++form) {
        double a = form == 0 ? k * M_PI / 12 : form == 1 ? k * (M_PI / 12) : (double)(k * PI / 12), up = a, dn = a;
        norm(c, a, n);
        for (int i = 0; i < 3; ++i) { up = std::nextafter(up, 1e9); dn = std::nextafter(dn, -1e9); norm(c, up, n); norm(c, dn, n); }
        for (double d : {1e-12, -1e-12, 1e-6, -1e-6}) norm(c, a + d, n);
    }
    c.bulk(n); c.step(n);
}
MC_FAMILY(normalise_tiny, "all doubles +-2^e (1+m/16), e -1074..12", 1) {
    int e = c.range(-1074, 12); u64 n = 0;
    DESC(c, "exponent " << e);
    for (int m = 0; m < 16; ++m) { double a = std::ldexp(1 + m / 16.0, e); norm(c, a, n); norm(c, -a, n); }
    norm(c, 0.0, n); norm(c, -0.0, n);
    c.bulk(n); c.step(n);
}
MC_MAIN()
