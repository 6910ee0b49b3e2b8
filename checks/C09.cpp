// C09: Morton order of integer vectors against interleaved-bit keys.
// QUICK: 1
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/morton_sort.h>
#include <set>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// Reference: walk the bits from the most significant down, dimension 0 first; a negative
// number sorts before a non-negative one.
template <typename T, int D> static bool before(const T* a, const T* b) {
    typedef typename std::make_unsigned<T>::type U;
    const U bias = std::is_signed<T>::value ? (U)((U)1 << (sizeof(T) * 8 - 1)) : (U)0;
    for (int k = sizeof(T) * 8 - 1; k >= 0; --k)
        for (int d = 0; d < D; ++d) {
            int x = (U)((U)a[d] ^ bias) >> k & 1, y = (U)((U)b[d] ^ bias) >> k & 1;
            if (x != y) return x < y;
        }
    return false;
}
template <typename T, int D> static void one(Ctx& c, const T* a, const T* b) {
    bool w = before<T, D>(a, b), g = rofl::MortonTraits<T, D>::compare(a, b);
    if (g != w) {
        std::ostringstream o;
        for (int d = 0; d < D; ++d) o << " " << (long long)a[d];
        o << " vs";
        for (int d = 0; d < D; ++d) o << " " << (long long)b[d];
        REQUIRE(c, false, "compare gives " << g << " expected " << w << " for" << o.str());
    }
}
// Values around every power of two, zero and the extremes.
template <typename T> static std::vector<T> corner(int every) {
    typedef typename std::make_unsigned<T>::type U;
    std::set<T> s;
    int B = sizeof(T) * 8;
    std::vector<int> ks{B - 1};
    for (int k = 0; k < B - 1; k += every) ks.push_back(k);
    for (int k : ks) {
        U p = (U)1 << k;
        s.insert((T)p); s.insert((T)(p - 1)); s.insert((T)(U)(0 - p));
        if (every == 1) s.insert((T)(p + 1));
    }
    s.insert(0); s.insert((T)~(U)0); s.insert(std::numeric_limits<T>::min()); s.insert(std::numeric_limits<T>::max());
    return std::vector<T>(s.begin(), s.end());
}
// first vector by choices, second by inner loops
template <typename T, int D> static void rec(Ctx& c, const std::vector<T>& v, const T* a, T* b, int d) {
    if (d == D) { one<T, D>(c, a, b); return; }
    for (T x : v) { b[d] = x; rec<T, D>(c, v, a, b, d + 1); }
}
template <typename T, int D> static void over(Ctx& c, const std::vector<T>& v) {
    T a[D], b[D];
    for (int d = 0; d < D; ++d) a[d] = v[c.choose(v.size())];
    if (c.describing) { DESC(c, sizeof(T) * 8 << "-bit vector"); for (int d = 0; d < D; ++d) DESC(c, " " << (long long)a[d]); DESC(c, " against all vectors over " << v.size() << " values"); }
    rec<T, D>(c, v, a, b, 0);
    u64 n = 1; for (int d = 0; d < D; ++d) n *= v.size();
    c.bulk(n); c.step(n);
}
template <typename T> static std::vector<T> all8() { std::vector<T> v; for (int i = 0; i < 256; ++i) v.push_back((T)i); return v; }
template <typename T> static std::vector<T> small(int lo, int hi) { std::vector<T> v; for (int i = lo; i <= hi; ++i) v.push_back((T)i); return v; }

MC_FAMILY(i8_1, "all pairs of int8", 1) { over<int8_t, 1>(c, all8<int8_t>()); }
MC_FAMILY(u8_1, "all pairs of uint8", 1) { over<uint8_t, 1>(c, all8<uint8_t>()); }
MC_FAMILY(i8_2, "all pairs of 2D int8 vectors (2^32)", 2) { over<int8_t, 2>(c, all8<int8_t>()); }
MC_FAMILY(u8_2, "all pairs of 2D uint8 vectors (2^32) in the thorough tier; over 80..175 in the quick tier", 2) { over<uint8_t, 2>(c, c.thorough() ? all8<uint8_t>() : small<uint8_t>(80, 175)); }
MC_FAMILY(i8_3, "all pairs of 3D int8 vectors over -9..8 (-13..12); thorough tier up to -16/15", 2) { over<int8_t, 3>(c, small<int8_t>(c.tier(-9, -13, -16), c.tier(8, 12, 15))); }
MC_FAMILY(i8_3c, "all pairs of 3D int8 vectors over corner values", 2) { auto v = corner<int8_t>(c.tier(2, 1)); over<int8_t, 3>(c, v); }
MC_FAMILY(u8_4, "all pairs of 4D uint8 vectors over 0..5 and 253..255", 2) { auto v = small<uint8_t>(0, c.tier(3, 5)); for (int i = 253; i < 256; ++i) v.push_back(i); over<uint8_t, 4>(c, v); }
MC_FAMILY(i16_2, "all pairs of 2D int16 vectors over values next to powers of two", 2) { over<int16_t, 2>(c, corner<int16_t>(1)); }
MC_FAMILY(u16_2, "all pairs of 2D uint16 vectors over values next to powers of two", 2) { over<uint16_t, 2>(c, corner<uint16_t>(1)); }
MC_FAMILY(i32_2, "all pairs of 2D int32 vectors over values next to powers of two", 2) { over<int32_t, 2>(c, corner<int32_t>(c.tier(2, 1))); }
MC_FAMILY(u32_2, "all pairs of 2D uint32 vectors over values next to powers of two", 2) { over<uint32_t, 2>(c, corner<uint32_t>(c.tier(2, 1))); }
MC_FAMILY(i64_2, "all pairs of 2D int64 vectors over values next to powers of two", 2) { over<int64_t, 2>(c, corner<int64_t>(c.tier(5, 2))); }
MC_FAMILY(u64_2, "all pairs of 2D uint64 vectors over values next to powers of two", 2) { over<uint64_t, 2>(c, corner<uint64_t>(c.tier(5, 2))); }
MC_FAMILY(i32_3, "all pairs of 3D int32 vectors over sparse corner values", 2) { over<int32_t, 3>(c, corner<int32_t>(c.tier(8, 6))); }
MC_FAMILY(i64_3, "all pairs of 3D int64 vectors over sparse corner values", 2) { over<int64_t, 3>(c, corner<int64_t>(c.tier(16, 11))); }
MC_FAMILY(i32_1, "pairs of int32, values next to powers of two", 1) { over<int32_t, 1>(c, corner<int32_t>(1)); }
MC_FAMILY(i64_1, "pairs of int64, values next to powers of two", 1) { over<int64_t, 1>(c, corner<int64_t>(1)); }
// Vectors that differ in two coordinates only, at every pair of bit positions, in any dimension.
template <typename T, int D> static void bitPairs(Ctx& c) {
    typedef typename std::make_unsigned<T>::type U;
    const int B = sizeof(T) * 8;
    int d1 = c.choose(D), d2 = c.choose(D), k1 = c.choose(B);
    static const U base[4] = {(U)0, (U)~(U)0, (U)0x5555555555555555ull, (U)0xC3A5C3A5C3A5C3A5ull};
    DESC(c, D << "D " << B << "-bit vectors, coordinate " << d1 << " differs at bit " << k1 << ", coordinate " << d2 << " at every bit");
    u64 n = 0;
    for (int k2 = 0; k2 < B; ++k2) for (U b0 : base) for (U lo = 0; lo < 4; ++lo) {
        T a[D], b[D];
        for (int d = 0; d < D; ++d) a[d] = b[d] = (T)(U)(b0 + d * 3);
        b[d1] = (T)(U)((U)b[d1] ^ (U)((U)1 << k1) ^ (lo & 1 && k1 ? (U)((U)1 << (k1 - 1)) : (U)0));
        a[d2] = (T)(U)((U)a[d2] ^ (U)((U)1 << k2) ^ (lo & 2 && k2 ? (U)(((U)1 << k2) - 1) : (U)0));
        one<T, D>(c, a, b); one<T, D>(c, b, a); one<T, D>(c, a, a);
        n += 3;
    }
    c.bulk(n); c.step(n);
}
#define BP(NAME, T, D) MC_FAMILY(NAME, #T ", dimension " #D ": vectors differing at every pair of bits of every pair of coordinates, 4 base patterns", 2) { bitPairs<T, D>(c); }
BP(bp_i8_5, int8_t, 5) BP(bp_i16_3, int16_t, 3) BP(bp_u16_4, uint16_t, 4) BP(bp_i32_4, int32_t, 4) BP(bp_u32_3, uint32_t, 3)
BP(bp_i64_3, int64_t, 3) BP(bp_u64_4, uint64_t, 4) BP(bp_i64_7, int64_t, 7) BP(bp_i32_9, int32_t, 9) BP(bp_u32_2, uint32_t, 2) BP(bp_i64_2, int64_t, 2) BP(bp_u64_2, uint64_t, 2)
MC_FAMILY(i16_1, "pairs of int16: corners against all 65536 values", 1) {
    auto v = corner<int16_t>(1);
    int16_t a = v[c.choose(v.size())];
    DESC(c, a << " against all int16");
    for (int x = -32768; x < 32768; ++x) { int16_t b = x; one<int16_t, 1>(c, &a, &b); }
    c.bulk(65536); c.step(65536);
}
MC_MAIN()
