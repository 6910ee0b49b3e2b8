// C14: decomposition and composition of floating point numbers.
// QUICK: 1
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/numeric_traits.h>
#include <cmath>
#include <limits>
#include "mc.h"
using mc::Ctx;
using mc::u64;

static inline float f32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static inline double f64(u64 b) { double f; memcpy(&f, &b, 8); return f; }
static inline uint32_t b32(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static inline u64 b64(double f) { u64 b; memcpy(&b, &f, 8); return b; }

static void one(Ctx& c, uint32_t bits) {
    float f = f32(bits), g;
    int32_t m, e; bool s;
    rofl::getMantissaExpSignF(f, m, e, s);
    g = rofl::setMantissaExpSignF(m, e, s);
    bool special = (bits & 0x7f800000) == 0x7f800000;
    if (!special) {
        REQUIRE(c, b32(g) == bits, "float with bits " << std::hex << bits << " comes back with bits " << b32(g));
        REQUIRE(c, m >= 0 && m < (1 << 23) && s == std::signbit(f), "float with bits " << std::hex << bits << ": mantissa " << m << " sign " << s);
        if (std::fpclassify(f) == FP_NORMAL) {
            double v = (1.0 + m / 8388608.0) * f64((u64)(e + 1023) << 52);
            REQUIRE(c, (s ? -v : v) == (double)f, "float " << f << " is not (-1)^" << s << " (1 + " << m << " 2^-23) 2^" << e);
        }
    }
}
static void one64(Ctx& c, u64 bits) {
    double f = f64(bits);
    int64_t m, e; bool s;
    rofl::getMantissaExpSignD(f, m, e, s);
    double g = rofl::setMantissaExpSignD(m, e, s);
    if ((bits >> 52 & 0x7ff) == 0x7ff) return;
    REQUIRE(c, b64(g) == bits, "double with bits " << std::hex << bits << " comes back with bits " << b64(g));
    REQUIRE(c, m >= 0 && m < (1ll << 52) && s == std::signbit(f), "double with bits " << std::hex << bits << ": mantissa " << m << " sign " << s);
    if (std::fpclassify(f) == FP_NORMAL) {
        long double v = std::ldexp(1.0L + std::ldexp((long double)m, -52), (int)e);
        REQUIRE(c, (s ? -v : v) == (long double)f, "double " << f << " is not (-1)^" << s << " (1 + " << m << " 2^-52) 2^" << e);
    }
}
MC_FAMILY(all_floats, "every finite float (all 2^32 bit patterns in the thorough tier; all 2^27 patterns with low bits in 32 classes in the quick tier): parts denote the number, recomposition is exact", 1) {
    u64 h = c.choose(4096), n = 0;
    DESC(c, "floats with leading 12 bits " << h);
    for (u64 l = 0; l < (1 << 20); l += c.thorough() ? 1 : 1 + (l >> 4 & 62)) { one(c, (uint32_t)(h << 20 | l)); ++n; }
    c.bulk(n); c.step(2 * n);
}
MC_FAMILY(doubles, "doubles: all 2046 exponents and signs, mantissas with at most 2 (3) bits set, complements and predecessors", 1) {
    u64 h = c.choose(4096), n = 0;
    DESC(c, "doubles with leading 12 bits " << h);
    for (int a = 0; a < 52; ++a) for (int b = 0; b <= a; ++b) for (int d = 0; d <= (c.thorough() ? b : 0); ++d) {
        u64 x = 1ull << a | 1ull << b | (c.thorough() ? 1ull << d : 0), M = (1ull << 52) - 1;
        for (u64 m : {x, M & ~x, (x - 1) & M}) { one64(c, h << 52 | m); ++n; }
    }
    one64(c, h << 52);
    c.bulk(n); c.step(2 * n);
}
MC_FAMILY(traits, "trait constants and wrappers agree with the number format, float and double, all exponents", 1) {
    int e = c.choose(254) - 126;
    typedef rofl::FloatTraits<float> F; typedef rofl::FloatTraits<double> D;
    DESC(c, "exponent " << e);
    for (int k = 0; k < 24; ++k) for (int s = 0; s < 2; ++s) {
        int32_t m0 = k == 23 ? 0x7fffff : (1 << k) - 1;
        float f = std::ldexp(1.0f + m0 / 8388608.0f, e) * (s ? -1 : 1);
        REQUIRE(c, F::compose(m0, e, s) == f, "compose gives " << F::compose(m0, e, s) << " expected " << f);
        int32_t m, x; bool sg; F::decompose(f, m, x, sg);
        REQUIRE(c, m == m0 && x == e && sg == (bool)s, "decompose(" << f << ") gives " << m << " " << x << " " << sg);
        REQUIRE(c, F::toInt(f) == b32(f), "toInt");
        int64_t M0 = (int64_t)m0 << 29 | k;
        double d = std::ldexp(1.0 + std::ldexp((double)M0, -52), e * 8) * (s ? -1 : 1);
        REQUIRE(c, D::compose(M0, e * 8, s) == d, "double compose gives " << D::compose(M0, e * 8, s) << " expected " << d);
        int64_t M, X; D::decompose(d, M, X, sg);
        REQUIRE(c, M == M0 && X == e * 8 && sg == (bool)s, "double decompose(" << d << ")");
        REQUIRE(c, D::toInt(d) == b64(d), "double toInt");
        REQUIRE(c, (int32_t)(b32(f) & F::MANTISSA_MASK) == m0 && (uint32_t)F::MANTISSA_IMPLICIT_BIT == (1u << 23), "float mantissa mask");
        REQUIRE(c, (((b32(f) & (uint32_t)F::EXPONENT_MASK) >> F::MANTISSA_BITS) - F::EXPONENT_BIAS) == (uint32_t)e, "float exponent mask");
        REQUIRE(c, ((b32(f) & (uint32_t)F::SIGN_MASK) != 0) == (bool)s, "float sign mask");
        REQUIRE(c, (int64_t)(b64(d) & D::MANTISSA_MASK) == M0, "double mantissa mask");
        REQUIRE(c, (int64_t)((b64(d) & (u64)D::EXPONENT_MASK) >> D::MANTISSA_BITS) - D::EXPONENT_BIAS == e * 8, "double exponent mask");
        REQUIRE(c, ((b64(d) & (u64)D::SIGN_MASK) != 0) == (bool)s, "double sign mask");
        c.step(2);
    }
    REQUIRE(c, F::EXPONENT_MAX == 128 && D::EXPONENT_MAX == 1024 && F::EXPONENT_MIN == -127 && D::EXPONENT_MIN == -1023, "exponent range constants");
    c.bulk(96);
}
MC_MAIN()
