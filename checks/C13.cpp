// C13: bit level helpers on every representable value.
// LIBS: common
// FLAVOUR: fast
#include <rofl/common/numeric_traits.h>
#include <rofl/common/morton_sort.h>
#include <limits>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// Reference by repeated division, no bit tricks.
static int bitlen(unsigned __int128 x) { int n = 0; while (x) { x /= 2; ++n; } return n; }
static inline int fastlen(uint64_t x) { return x ? 64 - __builtin_clzll(x) : 0; }
template <typename U> struct Fn;
template <> struct Fn<uint8_t> { static long nlz(uint8_t x) { return rofl::nlz8(x); } static uint8_t fl(uint8_t x) { return rofl::flp2u8(x); } static uint8_t cl(uint8_t x) { return rofl::clp2u8(x); } };
template <> struct Fn<uint16_t> { static long nlz(uint16_t x) { return rofl::nlz16(x); } static uint16_t fl(uint16_t x) { return rofl::flp2u16(x); } static uint16_t cl(uint16_t x) { return rofl::clp2u16(x); } };
template <> struct Fn<uint32_t> { static long nlz(uint32_t x) { return rofl::nlz32(x); } static uint32_t fl(uint32_t x) { return rofl::flp2u32(x); } static uint32_t cl(uint32_t x) { return rofl::clp2u32(x); } };
template <> struct Fn<uint64_t> { static long nlz(uint64_t x) { return rofl::nlz64(x); } static uint64_t fl(uint64_t x) { return rofl::flp2u64(x); } static uint64_t cl(uint64_t x) { return rofl::clp2u64(x); } };

template <typename U> static void one(Ctx& c, U x) {
    typedef typename std::make_signed<U>::type S;
    const int B = sizeof(U) * 8;
    int n = fastlen(x);
    U fl = n ? (U)((U)1 << (n - 1)) : (U)0;           // largest power of two <= x
    bool pow2 = x == fl;
    bool fits = pow2 || n < B;                         // smallest power of two >= x is representable
    U cl = pow2 ? x : (U)((U)1 << (n < B ? n : 0));
    if (__builtin_expect(Fn<U>::nlz(x) != B - n || Fn<U>::fl(x) != fl || (fits && Fn<U>::cl(x) != cl), 0)) {
        REQUIRE(c, Fn<U>::nlz(x) == B - n, B << "-bit leading zeros of " << (u64)x << " = " << Fn<U>::nlz(x) << " expected " << B - n);
        REQUIRE(c, Fn<U>::fl(x) == fl, B << "-bit floor power of two of " << (u64)x << " = " << (u64)Fn<U>::fl(x));
        REQUIRE(c, Fn<U>::cl(x) == cl, B << "-bit ceil power of two of " << (u64)x << " = " << (u64)Fn<U>::cl(x));
    }
    typedef rofl::IntegerTraits<U> TU;
    bool ok = rofl::nlz<U>(x) == (U)(B - n) && TU::floorPow2(x) == fl && rofl::floorPow2<U>(x) == fl && (!fits || (TU::ceilPow2(x) == cl && rofl::ceilPow2<U>(x) == cl));
    if (n) ok = ok && rofl::log2Mod<U>(x) == (U)(n - 1);
    REQUIRE(c, ok, "traits of unsigned " << B << "-bit " << (u64)x << ": nlz " << (u64)rofl::nlz<U>(x) << " floor " << (u64)TU::floorPow2(x) << " ceil " << (u64)TU::ceilPow2(x) << " log2 " << (u64)rofl::log2Mod<U>(x));
    // the same bits as a signed number
    S s = (S)x;
    if (B >= 32 && s == std::numeric_limits<S>::min()) return;  // its opposite is not representable
    REQUIRE(c, rofl::nlz<S>(s) == (S)(B - n), "leading zeros of signed " << (long long)s << " = " << (long long)rofl::nlz<S>(s));
    U mag = s < 0 ? (U)(0 - x) : x;
    int m = fastlen(mag);
    if (m) REQUIRE(c, rofl::log2Mod<S>(s) == (S)(m - 1), B << "-bit log2Mod(" << (long long)s << ") = " << (long long)rofl::log2Mod<S>(s) << " expected " << m - 1);
    U lowp = m ? (U)((U)1 << (m - 1)) : (U)0;          // largest power of two <= |s|
    bool mp = mag == lowp;
    if (s >= 0) {
        REQUIRE(c, rofl::floorPow2<S>(s) == (S)lowp, "floorPow2(" << (long long)s << ") = " << (long long)rofl::floorPow2<S>(s));
        if (mp || m < B - 1) REQUIRE(c, rofl::ceilPow2<S>(s) == (S)(mp ? lowp : (U)((U)1 << m)), "ceilPow2(" << (long long)s << ") = " << (long long)rofl::ceilPow2<S>(s));
    } else {
        REQUIRE(c, rofl::ceilPow2<S>(s) == (S)(0 - lowp), "ceilPow2(" << (long long)s << ") = " << (long long)rofl::ceilPow2<S>(s));
        REQUIRE(c, rofl::floorPow2<S>(s) == (S)(U)(0 - (mp ? lowp : (U)((U)1 << m))), "floorPow2(" << (long long)s << ") = " << (long long)rofl::floorPow2<S>(s));
    }
}
MC_FAMILY(bits8, "all 8-bit values, signed and unsigned", 1) { int h = c.choose(16); for (int l = 0; l < 16; ++l) one<uint8_t>(c, h * 16 + l); c.bulk(16); c.step(16); DESC(c, "values " << h * 16 << ".." << h * 16 + 15); }
MC_FAMILY(bits16, "all 16-bit values, signed and unsigned", 1) { int h = c.choose(256); for (int l = 0; l < 256; ++l) one<uint16_t>(c, h * 256 + l); c.bulk(256); c.step(256); DESC(c, "values " << h * 256 << ".." << h * 256 + 255); }
MC_FAMILY(bits32, "all 2^32 32-bit values, signed and unsigned (thorough); every value whose low or high 16 bits are one of 64 patterns (quick)", 1) {
    u64 n = 0;
    if (c.thorough()) { u64 h = c.choose(65536); for (u64 l = 0; l < 65536; ++l) one<uint32_t>(c, (uint32_t)(h << 16 | l)); n = 65536; DESC(c, "values with high half " << h); }
    else {
        u64 h = c.choose(256) * 257 & 0xffff, k = c.choose(2);
        for (u64 l = 0; l < 65536; ++l) { one<uint32_t>(c, (uint32_t)(k ? h << 16 | l : l << 16 | h)); ++n; }
        DESC(c, "values with one half " << h);
    }
    c.bulk(n); c.step(n);
}
MC_FAMILY(bits64, "64-bit values with at most 3 (4) bits set, their complements and predecessors, signed and unsigned", 2) {
    int a = c.choose(64), b = c.choose(a + 1);
    u64 n = 0, base = 1ull << a | 1ull << b;
    DESC(c, "bits " << a << "," << b << " and all third bits");
    for (int k = 0; k <= b; ++k) for (int l = 0; l <= (c.thorough() ? k : 0); ++l) {
        u64 x = base | 1ull << k | (c.thorough() ? 1ull << l : 0);
        for (u64 v : {x, ~x, x - 1, 0 - x, x + 1}) { one<uint64_t>(c, v); ++n; }
    }
    one<uint64_t>(c, 0);
    c.bulk(n); c.step(n);
}
template <typename U> static void msbOne(Ctx& c, U a, U b) {
    bool w = fastlen(a) < fastlen(b);
    REQUIRE(c, rofl::msb<U>(a, b) == w, "msb(" << (u64)a << "," << (u64)b << ") = " << rofl::msb<U>(a, b));
}
MC_FAMILY(msb_order, "most significant bit comparison: all pairs of 8-bit values, all 16-bit values against 256 values, 32/64-bit neighbours of powers of two", 1) {
    int k = c.choose(256); u64 n = 0;
    for (int b = 0; b < 256; ++b, ++n) msbOne<uint8_t>(c, k, b);
    for (int b = 0; b < 65536; ++b, n += 2) { msbOne<uint16_t>(c, k * 257, b); msbOne<uint16_t>(c, b, k * 257); }
    for (int i = 0; i < 64; ++i) for (int j = -1; j < 2; ++j) for (int d = -1; d < 2; ++d, ++n) {
        u64 x = (1ull << (k % 64)) + d, y = (1ull << i) + j;
        msbOne<uint64_t>(c, x, y); msbOne<uint32_t>(c, (uint32_t)x, (uint32_t)y);
    }
    DESC(c, "operand " << k);
    c.bulk(n); c.step(n);
}
MC_MAIN()
