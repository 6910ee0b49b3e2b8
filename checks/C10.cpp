// C10: Morton order of floating point vectors against fixed point bit expansions.
// QUICK: 1
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/morton_sort.h>
#include <set>
#include <limits>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// Reference.  A finite number is an infinite two's complement fixed point expansion; the cell
// of side 2^k it lies in is floor(x / 2^k).  Two numbers differ first at the bit of weight
// 2^(k-1) where k is the smallest exponent with a common cell.
static const int SIGN = 1 << 20, SAME = -(1 << 20);
template <typename F> static int level(F a, F b) {
    if (a == b) return SAME;
    if ((a < 0) != (b < 0)) return SIGN;
    int k;
    // coarse to fine, from a side above both magnitudes; the numbers have magnitudes in 2^-110 .. 2^110 and at most 53 bits
    for (k = std::max(a == 0 ? -199 : std::ilogb(a), b == 0 ? -199 : std::ilogb(b)) + 1; k > -200; --k) if (std::floor(std::ldexp((long double)a, -k)) != std::floor(std::ldexp((long double)b, -k))) break;
    return k;  // weight 2^k: first differing cell side
}
template <typename F> struct Tab {
    std::vector<F> v;
    std::vector<int> lev;
    Tab(const std::vector<F>& x) : v(x), lev(x.size() * x.size()) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) lev[i * v.size() + j] = level(v[i], v[j]); }
};
template <typename F, int D> static void one(Ctx& c, const Tab<F>& t, const int* a, const int* b) {
    F x[D], y[D];
    int best = 0, bl = SAME;
    for (int d = 0; d < D; ++d) {
        x[d] = t.v[a[d]]; y[d] = t.v[b[d]];
        int l = t.lev[a[d] * t.v.size() + b[d]];
        if (l > bl) { bl = l; best = d; }
    }
    bool w = x[best] < y[best];
    bool g = rofl::MortonTraits<F, D>::compare(x, y);
    if (g != w) {
        std::ostringstream o; o.precision(17);
        for (int d = 0; d < D; ++d) o << " " << x[d];
        o << " vs";
        for (int d = 0; d < D; ++d) o << " " << y[d];
        REQUIRE(c, false, "compare gives " << g << " expected " << w << " for" << o.str());
    }
}
template <typename F, int D> static void rec(Ctx& c, const Tab<F>& t, const int* a, int* b, int d) {
    if (d == D) { one<F, D>(c, t, a, b); return; }
    for (size_t i = 0; i < t.v.size(); ++i) { b[d] = i; rec<F, D>(c, t, a, b, d + 1); }
}
template <typename F, int D> static void over(Ctx& c, const Tab<F>& t) {
    int a[D], b[D];
    for (int d = 0; d < D; ++d) a[d] = c.choose(t.v.size());
    if (c.describing) { DESC(c, "vector"); for (int d = 0; d < D; ++d) DESC(c, " " << t.v[a[d]]); DESC(c, " against all vectors over " << t.v.size() << " values"); }
    rec<F, D>(c, t, a, b, 0);
    u64 n = 1; for (int d = 0; d < D; ++d) n *= t.v.size();
    c.bulk(n); c.step(n);
}
template <typename F> static std::vector<F> signedValues(std::vector<F> p, bool zero = true) {
    std::set<F> s;
    for (F x : p) { s.insert(x); s.insert(-x); }
    if (zero) s.insert(0);
    std::vector<F> v(s.begin(), s.end());
    if (zero) v.push_back(-F(0));
    return v;
}
template <typename F> static std::vector<F> mixed() {
    F e = std::numeric_limits<F>::epsilon();
    return signedValues<F>({F(1), F(1) + e, F(1) - e / 2, F(2) - e, F(0.5), F(0.75), F(1.5), F(3), F(4), F(5.25), F(7), F(100), F(0.1), F(1e-3), F(1e-10), F(1e10), F(1e-30), F(1e30), F(1) / 3});
}
template <typename F> static std::vector<F> grid8() {  // all multiples of 1/8 up to 2, and 2..4 by 1/2
    std::vector<F> p;
    for (int i = 1; i <= 16; ++i) p.push_back(F(i) / 8);
    for (int i = 5; i <= 8; ++i) p.push_back(F(i) / 2);
    return signedValues<F>(p);
}
template <typename F> static std::vector<F> nearPow(int lo, int hi, int step) {
    std::vector<F> p;
    for (int k = lo; k <= hi; k += step) { F x = std::ldexp(F(1), k); p.push_back(x); p.push_back(std::nextafter(x, F(0))); p.push_back(std::nextafter(x, x * 2)); }
    return signedValues<F>(p);
}
template <typename F> static std::vector<F> small() { return signedValues<F>({F(1), F(0.75), F(3), F(2.5), F(1e-12), std::nextafter(F(1), F(0))}); }
template <typename F> static std::vector<F> ints(int n) { std::vector<F> p; for (int i = 1; i <= n; ++i) p.push_back(F(i)); return signedValues<F>(p); }

#define FAM(NAME, F, D, MAKE, TXT) MC_FAMILY(NAME, TXT, (D > 1 ? 2 : 1)) { static const Tab<F> q(MAKE); over<F, D>(c, q); }
FAM(f1_pow, float, 1, nearPow<float>(-95, 95, 1), "float pairs: powers of two 2^-95..2^95 and their neighbours, both signs, both zeros")
FAM(d1_pow, double, 1, nearPow<double>(-95, 95, 1), "double pairs: powers of two and neighbours")
FAM(f2_mixed, float, 2, mixed<float>(), "all pairs of 2D float vectors over 40 values of mixed magnitude and sign")
FAM(d2_mixed, double, 2, mixed<double>(), "all pairs of 2D double vectors over 40 values of mixed magnitude and sign")
FAM(f2_grid, float, 2, grid8<float>(), "all pairs of 2D float vectors over multiples of 1/8")
FAM(d2_grid, double, 2, grid8<double>(), "all pairs of 2D double vectors over multiples of 1/8")
FAM(f2_ints, float, 2, ints<float>(20), "all pairs of 2D float vectors over -20..20")
FAM(d2_ints, double, 2, ints<double>(16), "all pairs of 2D double vectors over -16..16")
FAM(f2_pow, float, 2, nearPow<float>(-90, 90, 30), "all pairs of 2D float vectors over neighbours of distant powers of two")
FAM(d2_pow, double, 2, nearPow<double>(-90, 90, 30), "all pairs of 2D double vectors over neighbours of distant powers of two")
FAM(f3_small, float, 3, small<float>(), "all pairs of 3D float vectors over 14 values")
FAM(d3_small, double, 3, small<double>(), "all pairs of 3D double vectors over 14 values")
MC_FAMILY(f3_ints, "all pairs of 3D float vectors over -6..6 (-8..8); thorough tier up to 10", 2) { static const Tab<float> q(ints<float>(c.tier(6, 8, 10))); over<float, 3>(c, q); }
MC_FAMILY(d3_ints, "all pairs of 3D double vectors over -6..6 (-8..8); thorough tier up to 10", 2) { static const Tab<double> q(ints<double>(c.tier(6, 8, 10))); over<double, 3>(c, q); }
// Values that differ in one mantissa bit, at every bit, over several magnitudes.
template <typename F> static std::vector<F> mantissaBits(std::vector<int> exps, int step) {
    std::vector<F> p;
    for (int e : exps) {
        p.push_back(std::ldexp(F(1), e)); p.push_back(std::ldexp(F(1.75), e));
        for (int k = 1; k < std::numeric_limits<F>::digits; k += step) { p.push_back(std::ldexp(F(1) + std::ldexp(F(1), -k), e)); p.push_back(std::ldexp(F(1.75) + std::ldexp(F(1), -k), e)); }
    }
    return signedValues<F>(p);
}
FAM(f1_bits, float, 1, mantissaBits<float>({0, 1, -60, 60}, 1), "float pairs: one mantissa bit set or changed, every bit, 4 magnitudes")
FAM(d1_bits, double, 1, mantissaBits<double>({0, 1, -60, 60}, 1), "double pairs: one mantissa bit set or changed, every bit, 4 magnitudes")
FAM(f2_bits, float, 2, mantissaBits<float>({0}, 2), "all pairs of 2D float vectors over values differing in every second mantissa bit")
FAM(d2_bits, double, 2, mantissaBits<double>({0}, 4), "all pairs of 2D double vectors over values differing in every fourth mantissa bit")
FAM(f4_small, float, 4, signedValues<float>({1, 2.5f}), "all pairs of 4D float vectors over 6 values")
FAM(d5_small, double, 5, signedValues<double>({1.25}), "all pairs of 5D double vectors over 4 values")
// Thorough: a long list of floats, all pairs against two second coordinates
MC_FAMILY(f1_dense, "float pairs: all floats with 6 (8) leading mantissa bits and exponents -2..2, both signs; thorough tier up to 10", 1) {
    static std::vector<float> p;
    if (p.empty()) { int b = c.tier(6, 8, 10); for (int e = -2; e <= 2; ++e) for (int m = 0; m < (1 << b); ++m) p.push_back(std::ldexp(1.0f + m / float(1 << b), e)); p = signedValues<float>(p); }
    int i = c.choose(p.size());
    DESC(c, p[i] << " against " << p.size() << " values, second coordinate 0.25 vs 0.5 either way");
    u64 n = 0;
    for (float q : p) for (int o = 0; o < 2; ++o) {
        float a[2] = {p[i], o ? 0.25f : 0.5f}, b[2] = {q, o ? 0.5f : 0.25f};
        int l = level(a[0], b[0]), l2 = level(a[1], b[1]);
        bool w = l >= l2 ? a[0] < b[0] : a[1] < b[1];
        bool g = rofl::MortonTraits<float, 2>::compare(a, b);
        REQUIRE(c, g == w, "compare gives " << g << " expected " << w << " for " << a[0] << "," << a[1] << " vs " << b[0] << "," << b[1]);
        ++n;
    }
    c.bulk(n); c.step(n);
}
// Higher dimensions: all coordinates equal except two.
template <typename F, int D> static void twoOf(Ctx& c, const Tab<F>& t) {
    int a[D], b[D], n = t.v.size(), d1 = c.choose(D), d2 = c.choose(D), k = c.choose(n); DESC(c, D << "D vectors that differ in the coordinates " << d1 << " and " << d2 << " only, value " << t.v[k]); u64 cnt = 0;
    for (int base = 0; base < n; base += 3) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < n; q += 2) {
        for (int d = 0; d < D; ++d) a[d] = b[d] = (base + d) % n;
        a[d1] = k; b[d1] = i; if (d2 != d1) { a[d2] = j; b[d2] = q; } one<F, D>(c, t, a, b); ++cnt;
    }
    c.bulk(cnt); c.step(cnt);
}
MC_FAMILY(f6_two, "6D float vectors equal except in two coordinates, over 9 values", 2) { static const Tab<float> q(signedValues<float>({1, 2.5f, 0.75f, 1e-12f})); twoOf<float, 6>(c, q); }
MC_FAMILY(d9_two, "9D double vectors equal except in two coordinates, over 9 values", 2) { static const Tab<double> q(signedValues<double>({1, 3, 1e10, 0.1})); twoOf<double, 9>(c, q); }
MC_FAMILY(d17_two, "17D double vectors equal except in two coordinates, over 7 values", 2) { static const Tab<double> q(signedValues<double>({1, 2.5, 1e-3})); twoOf<double, 17>(c, q); }
MC_MAIN()
