// C11: Morton distance and split: smallest dyadic boxes.
// QUICK: 1
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/morton_sort.h>
#include <set>
#include <limits>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// ---- integers
template <typename T> struct Ref { typedef typename std::make_unsigned<T>::type U; 
    static int bits(T a, T b) { U x = (U)((U)a ^ (U)b); int n = 0; while (x) { ++n; x = (U)(x >> 1); } return n; }
    // smallest dyadic interval of the ordered type
    static void box(T a, T b, T& low, T& mid, T& upp) {
        const int B = sizeof(T) * 8;
        int n = bits(a, b);
        const U bias = std::is_signed<T>::value ? (U)((U)1 << (B - 1)) : (U)0;
        U x = (U)((U)a ^ bias), mask = n == B ? (U)~(U)0 : (U)(((U)1 << n) - 1);
        U l = (U)(x & (U)~mask), u = (U)(l | mask), m = n ? (U)(l | ((U)1 << (n - 1))) : l;
        low = (T)(U)(l ^ bias); upp = (T)(U)(u ^ bias); mid = (T)(U)(m ^ bias);
    }
};
template <typename T, int D> static void oneInt(Ctx& c, const T* a, const T* b) {
    int best = 0, bl = -1;
    T low[D], mid[D], upp[D], gl[D], gm[D], gu[D];
    for (int d = 0; d < D; ++d) {
        int n = Ref<T>::bits(a[d], b[d]);
        if (n > bl) { bl = n; best = d; }
        Ref<T>::box(a[d], b[d], low[d], mid[d], upp[d]);
    }
    for (int d = 0; d < D; ++d) if (d != best) mid[d] = low[d];
    int dist = rofl::MortonTraits<T, D>::distance(a, b);
    rofl::MortonTraits<T, D>::split(a, b, gl, gm, gu);
    bool ok = dist == bl;
    for (int d = 0; d < D; ++d) ok = ok && gl[d] == low[d] && gm[d] == mid[d] && gu[d] == upp[d];
    if (!ok) {
        std::ostringstream o;
        for (int d = 0; d < D; ++d) o << " (" << (long long)a[d] << " " << (long long)b[d] << ": low " << (long long)gl[d] << "/" << (long long)low[d] << " mid " << (long long)gm[d] << "/" << (long long)mid[d] << " upp " << (long long)gu[d] << "/" << (long long)upp[d] << ")";
        REQUIRE(c, false, "distance " << dist << " expected " << bl << "; got/expected" << o.str());
    }
}
template <typename T> static std::vector<T> corner(int every) {
    typedef typename std::make_unsigned<T>::type U;
    std::set<T> s;
    int B = sizeof(T) * 8;
    std::vector<int> ks{B - 1, B - 2};
    for (int k = 0; k < B - 1; k += every) ks.push_back(k);
    for (int k : ks) {
        U p = (U)1 << k;
        s.insert((T)p); s.insert((T)(p - 1)); s.insert((T)(U)(0 - p)); s.insert((T)(U)(p + (p >> 1)));
        if (every == 1) s.insert((T)(p + 1));
    }
    s.insert(0); s.insert((T)~(U)0); s.insert(std::numeric_limits<T>::min()); s.insert(std::numeric_limits<T>::max());
    return std::vector<T>(s.begin(), s.end());
}
template <typename T, int D> static void recI(Ctx& c, const std::vector<T>& v, const T* a, T* b, int d) {
    if (d == D) { oneInt<T, D>(c, a, b); return; }
    for (T x : v) { b[d] = x; recI<T, D>(c, v, a, b, d + 1); }
}
template <typename T, int D> static void overI(Ctx& c, const std::vector<T>& v) {
    T a[D], b[D];
    for (int d = 0; d < D; ++d) a[d] = v[c.choose(v.size())];
    if (c.describing) { DESC(c, sizeof(T) * 8 << "-bit vector"); for (int d = 0; d < D; ++d) DESC(c, " " << (long long)a[d]); DESC(c, " with all vectors over " << v.size() << " values"); }
    recI<T, D>(c, v, a, b, 0);
    u64 n = 1; for (int d = 0; d < D; ++d) n *= v.size();
    c.bulk(n); c.step(2 * n);
}
template <typename T> static std::vector<T> seq(int lo, int hi) { std::vector<T> v; for (int i = lo; i <= hi; ++i) v.push_back((T)i); return v; }

MC_FAMILY(i8_1, "all pairs of int8: distance and split", 1) { overI<int8_t, 1>(c, seq<int8_t>(-128, 127)); }
MC_FAMILY(u8_1, "all pairs of uint8", 1) { overI<uint8_t, 1>(c, seq<uint8_t>(0, 255)); }
MC_FAMILY(i8_2, "all pairs of 2D int8 vectors over -24..23 (-40..39); thorough tier up to -64/63", 2) { overI<int8_t, 2>(c, seq<int8_t>(c.tier(-24, -40, -64), c.tier(23, 39, 63))); }
MC_FAMILY(u8_2, "all pairs of 2D uint8 vectors over 110..145 (90..165)", 2) { overI<uint8_t, 2>(c, seq<uint8_t>(c.tier(110, 90), c.tier(145, 165))); }
MC_FAMILY(i8_3, "all pairs of 3D int8 vectors over -6..5 (-8..8); thorough tier up to -10/10", 2) { overI<int8_t, 3>(c, seq<int8_t>(c.tier(-6, -8, -10), c.tier(5, 8, 10))); }
MC_FAMILY(i16_1, "pairs of int16 next to powers of two", 1) { overI<int16_t, 1>(c, corner<int16_t>(1)); }
MC_FAMILY(u16_2, "pairs of 2D uint16 vectors next to powers of two", 2) { overI<uint16_t, 2>(c, corner<uint16_t>(c.tier(2, 1))); }
MC_FAMILY(i32_1, "pairs of int32 next to powers of two", 1) { overI<int32_t, 1>(c, corner<int32_t>(1)); }
MC_FAMILY(u32_1, "pairs of uint32 next to powers of two", 1) { overI<uint32_t, 1>(c, corner<uint32_t>(1)); }
MC_FAMILY(i64_1, "pairs of int64 next to powers of two", 1) { overI<int64_t, 1>(c, corner<int64_t>(1)); }
MC_FAMILY(u64_1, "pairs of uint64 next to powers of two", 1) { overI<uint64_t, 1>(c, corner<uint64_t>(1)); }
MC_FAMILY(i32_2, "pairs of 2D int32 vectors next to powers of two", 2) { overI<int32_t, 2>(c, corner<int32_t>(c.tier(4, 2))); }
MC_FAMILY(i64_2, "pairs of 2D int64 vectors next to powers of two", 2) { overI<int64_t, 2>(c, corner<int64_t>(c.tier(8, 4))); }
MC_FAMILY(u64_2, "pairs of 2D uint64 vectors next to powers of two", 2) { overI<uint64_t, 2>(c, corner<uint64_t>(c.tier(8, 4))); }

// ---- floating point
static const int SIGN = 1 << 20, SAME = -(1 << 20);
template <typename F> static int level(F a, F b) {
    if (a == b) return SAME;
    if ((a < 0) != (b < 0)) return SIGN;
    int k;
    for (k = std::max(a == 0 ? -199 : std::ilogb(a), b == 0 ? -199 : std::ilogb(b)) + 1; k > -200; --k) if (std::floor(std::ldexp((long double)a, -k)) != std::floor(std::ldexp((long double)b, -k))) break;
    return k;
}
template <typename F> struct Box { F low, mid, upp; int side; };  // side: exponent
template <typename F> static Box<F> boxOf(F a, F b) {
    if ((a < 0) != (b < 0)) return {std::numeric_limits<F>::lowest(), F(0), std::numeric_limits<F>::max(), SIGN};
    if (a < 0) { Box<F> m = boxOf<F>(-a, -b); return {-m.upp, -m.mid, -m.low, m.side}; }
    if (a == b) return {a, a, a, SAME};
    int K = level(a, b) + 1, e;
    F big = std::max(a, b);
    std::frexp(big, &e);
    F low = std::ldexp(std::floor(std::ldexp(a, -K)), K);
    F ulp = std::ldexp(F(1), e - std::numeric_limits<F>::digits);
    return {low, low + std::ldexp(F(1), K - 1), (low + (std::ldexp(F(1), K) - ulp)), K};
}
template <typename F> struct Tab {
    std::vector<F> v; std::vector<int> lev; std::vector<Box<F>> box;
    Tab(const std::vector<F>& x) : v(x) { for (F a : v) for (F b : v) { lev.push_back(level(a, b)); box.push_back(boxOf(a, b)); } }
};
template <typename F, int D> static void oneFloat(Ctx& c, const Tab<F>& t, const int* a, const int* b) {
    typedef rofl::FloatTraits<F> FT;
    F x[D], y[D], gl[D], gm[D], gu[D];
    int lmax = SAME, best = 0, bs = -(1 << 21); bool eq = false;
    for (int d = 0; d < D; ++d) {
        int k = a[d] * t.v.size() + b[d];
        x[d] = t.v[a[d]]; y[d] = t.v[b[d]];
        lmax = std::max(lmax, t.lev[k]);
        if (t.lev[k] == SAME) eq = true;
        if (t.box[k].side > bs) { bs = t.box[k].side; best = d; }
    }
    int wd = lmax == SAME ? -FT::EXPONENT_BIAS : lmax == SIGN ? std::numeric_limits<F>::max_exponent : lmax;
    int gd = rofl::MortonTraits<F, D>::distance(x, y);
    rofl::MortonTraits<F, D>::split(x, y, gl, gm, gu);
    bool ok = gd == wd;
    int moved = 0;
    for (int d = 0; d < D; ++d) {
        const Box<F>& w = t.box[a[d] * t.v.size() + b[d]];
        ok = ok && gl[d] == w.low && gu[d] == w.upp;
        bool atLow = gm[d] == w.low, atMid = gm[d] == w.mid;
        ok = ok && (atLow || atMid);
        if (!atLow) ++moved;
        if (!eq && d == best) ok = ok && atMid;
        if (!eq && d != best) ok = ok && atLow;
    }
    ok = ok && moved <= 1;
    if (!ok) {
        std::ostringstream o; o.precision(17);
        for (int d = 0; d < D; ++d) { const Box<F>& w = t.box[a[d] * t.v.size() + b[d]]; o << " (" << x[d] << " " << y[d] << ": low " << gl[d] << "/" << w.low << " mid " << gm[d] << "/" << w.mid << " upp " << gu[d] << "/" << w.upp << ")"; }
        REQUIRE(c, false, "distance " << gd << " expected " << wd << "; got/expected" << o.str());
    }
}
template <typename F, int D> static void recF(Ctx& c, const Tab<F>& t, const int* a, int* b, int d) {
    if (d == D) { oneFloat<F, D>(c, t, a, b); return; }
    for (size_t i = 0; i < t.v.size(); ++i) { b[d] = i; recF<F, D>(c, t, a, b, d + 1); }
}
template <typename F, int D> static void overF(Ctx& c, const Tab<F>& t) {
    int a[D], b[D];
    for (int d = 0; d < D; ++d) a[d] = c.choose(t.v.size());
    if (c.describing) { DESC(c, "vector"); for (int d = 0; d < D; ++d) DESC(c, " " << t.v[a[d]]); DESC(c, " with all vectors over " << t.v.size() << " values"); }
    recF<F, D>(c, t, a, b, 0);
    u64 n = 1; for (int d = 0; d < D; ++d) n *= t.v.size();
    c.bulk(n); c.step(2 * n);
}
template <typename F> static std::vector<F> sv(std::vector<F> p) { std::set<F> s{F(0)}; for (F x : p) { s.insert(x); s.insert(-x); } return std::vector<F>(s.begin(), s.end()); }
template <typename F> static std::vector<F> pows(int step) { std::vector<F> p; for (int k = -90; k <= 90; k += step) { F x = std::ldexp(F(1), k); p.push_back(x); p.push_back(std::nextafter(x, F(0))); p.push_back(std::nextafter(x, x * 2)); p.push_back(x * F(1.375)); } return sv(p); }
template <typename F> static std::vector<F> mixed() { F e = std::numeric_limits<F>::epsilon(); return sv<F>({F(1), F(1) + e, F(1) - e / 2, F(0.5), F(0.75), F(1.5), F(3), F(4), F(5.25), F(100), F(0.1), F(1e-10), F(1e10), F(1e-25), F(1e30)}); }
template <typename F> static std::vector<F> ints(int n) { std::vector<F> p; for (int i = 1; i <= n; ++i) p.push_back(F(i)); return sv<F>(p); }
#define FAM(NAME, F, D, MAKE, TXT) MC_FAMILY(NAME, TXT, (D > 1 ? 2 : 1)) { static const Tab<F> q(MAKE); overF<F, D>(c, q); }
FAM(f1, float, 1, pows<float>(2), "float pairs next to powers of two 2^-90..2^90: distance and split")
FAM(d1, double, 1, pows<double>(2), "double pairs next to powers of two")
FAM(f1i, float, 1, ints<float>(64), "float pairs over integers -64..64")
FAM(d1i, double, 1, ints<double>(64), "double pairs over integers -64..64")
FAM(f2, float, 2, mixed<float>(), "2D float vectors over 31 mixed values")
FAM(d2, double, 2, mixed<double>(), "2D double vectors over 31 mixed values")
FAM(d2i, double, 2, ints<double>(12), "2D double vectors over integers -12..12")
FAM(f3, float, 3, sv<float>({1, 0.75f, 3, 1e-8f, 5}), "3D float vectors over 11 values")
FAM(d3, double, 3, sv<double>({1, 0.75, 3, 1e-8, 5}), "3D double vectors over 11 values")
template <typename F> static std::vector<F> mantissaBits(std::vector<int> exps, int step) {
    std::vector<F> p;
    for (int e : exps) {
        p.push_back(std::ldexp(F(1), e)); p.push_back(std::ldexp(F(1.75), e));
        for (int k = 1; k < std::numeric_limits<F>::digits; k += step) { p.push_back(std::ldexp(F(1) + std::ldexp(F(1), -k), e)); p.push_back(std::ldexp(F(1.75) + std::ldexp(F(1), -k), e)); }
    }
    return sv<F>(p);
}
FAM(f1b, float, 1, mantissaBits<float>({0, 1, -60, 60}, 1), "float pairs differing in every mantissa bit, 4 magnitudes")
FAM(d1b, double, 1, mantissaBits<double>({0, 1, -60, 60}, 1), "double pairs differing in every mantissa bit, 4 magnitudes")
FAM(d2b, double, 2, mantissaBits<double>({0}, 5), "2D double vectors over values differing in every fifth mantissa bit")
FAM(f2b, float, 2, mantissaBits<float>({3}, 3), "2D float vectors over values differing in every third mantissa bit")
FAM(f4, float, 4, sv<float>({1, 2.5f}), "4D float vectors over 5 values")
// Integer vectors that differ in two coordinates, at every pair of bits, higher dimensions.
template <typename T, int D> static void bitPairs(Ctx& c) {
    typedef typename std::make_unsigned<T>::type U;
    const int B = sizeof(T) * 8;
    int d1 = c.choose(D), d2 = c.choose(D), k1 = c.choose(B);
    static const U base[4] = {(U)0, (U)~(U)0, (U)0x5555555555555555ull, (U)0xC3A5C3A5C3A5C3A5ull};
    DESC(c, D << "D " << B << "-bit vectors, coordinate " << d1 << " differs at bit " << k1 << ", coordinate " << d2 << " at every bit");
    u64 n = 0;
    for (int k2 = 0; k2 < B; ++k2) for (U b0 : base) for (U lo = 0; lo < 4; ++lo) {
        T a[D], b[D];
        for (int d = 0; d < D; ++d) a[d] = b[d] = (T)(U)(b0 + d * 3);
        b[d1] = (T)(U)((U)b[d1] ^ (U)((U)1 << k1) ^ (lo & 1 && k1 ? (U)((U)1 << (k1 - 1)) : (U)0));
        a[d2] = (T)(U)((U)a[d2] ^ (U)((U)1 << k2) ^ (lo & 2 && k2 ? (U)(((U)1 << k2) - 1) : (U)0));
        oneInt<T, D>(c, a, b); oneInt<T, D>(c, b, a); oneInt<T, D>(c, a, a);
        n += 3;
    }
    c.bulk(n); c.step(2 * n);
}
#define BP(NAME, T, D) MC_FAMILY(NAME, #T ", dimension " #D ": vectors differing at every pair of bits of every pair of coordinates, 4 base patterns", 2) { bitPairs<T, D>(c); }
BP(bp_i8_4, int8_t, 4) BP(bp_i16_3, int16_t, 3) BP(bp_u16_2, uint16_t, 2) BP(bp_i32_3, int32_t, 3) BP(bp_u32_4, uint32_t, 4)
BP(bp_i64_3, int64_t, 3) BP(bp_u64_2, uint64_t, 2) BP(bp_u64_5, uint64_t, 5) BP(bp_i64_2, int64_t, 2)
BP(bp_i32_9, int32_t, 9) BP(bp_i8_17, int8_t, 17)
template <typename F, int D> static void twoOf(Ctx& c, const Tab<F>& t) {
    int a[D], b[D], n = t.v.size(), d1 = c.choose(D), d2 = c.choose(D), k = c.choose(n); DESC(c, D << "D vectors that differ in the coordinates " << d1 << " and " << d2 << " most, value " << t.v[k]); u64 cnt = 0;
    for (int base = 0; base < n; base += 3) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < n; q += 2) {
        for (int d = 0; d < D; ++d) { a[d] = (base + d) % n; b[d] = base % 2 ? a[d] : n - 1; if (base % 2 == 0) a[d] = n - 2; }
        a[d1] = k; b[d1] = i; if (d2 != d1) { a[d2] = j; b[d2] = q; } oneFloat<F, D>(c, t, a, b); ++cnt;
    }
    c.bulk(cnt); c.step(2 * cnt);
}
MC_FAMILY(f6_two, "6D float vectors that differ by little except in two coordinates, over 9 values", 2) { static const Tab<float> q(sv<float>({1, 2.5f, 2.75f, 1e-12f})); twoOf<float, 6>(c, q); }
MC_FAMILY(d9_two, "9D double vectors that differ by little except in two coordinates, over 9 values", 2) { static const Tab<double> q(sv<double>({1, 3, 0.1, 3.001})); twoOf<double, 9>(c, q); }
MC_MAIN()
