// C32: componentwise algebra of fixed size vectors.
// QUICK: 1
#include <cstddef>
#include <rofl/common/vector_array.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename T, size_t D> static rofl::VectorArray<T, D> make(const std::vector<T>& v) { rofl::VectorArray<T, D> a; for (size_t i = 0; i < D; ++i) a[i] = v[i]; return a; }
template <typename T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
template <typename T, size_t D> static void ops(Ctx& c, const std::vector<T>& x, const std::vector<T>& y, T s) {
    typedef rofl::VectorArray<T, D> A; const A a = make<T, D>(x), b = make<T, D>(y); u64 h = D;
    if (c.describing) { DESC(c, "a"); for (T v : x) DESC(c, " " << v); DESC(c, " b"); for (T v : y) DESC(c, " " << v); DESC(c, " scalar " << s); }
    bool div = true; for (T v : y) if (v == 0 && std::is_integral<T>::value) div = false;
    A z; for (size_t i = 0; i < D; ++i) REQUIRE(c, z[i] == 0, "a new vector has component " << i << " = " << z[i]);
    A p = a + b, m = a - b, t = a * b, k = a * s, q; if (div) q = a / b;
    A e = a, f = a, g = a, cp(a), as; as = a; A& re = (e += b); A& rf = (f *= b); A& rg = (g *= s);
    REQUIRE(c, &re == &e && &rf == &f && &rg == &g, "compound assignment does not return the object");
    A ch = a; ((ch += b) *= s) += b; A self = a; self += self; A sq = a; sq *= sq;
    c.step(12);
    for (size_t i = 0; i < D; ++i) {
        REQUIRE(c, a[i] == x[i] && b[i] == y[i] && a(i) == x[i] && cp(i) == x[i] && as[i] == x[i], "operand or copy changed at " << i);
        REQUIRE(c, same(p[i], (T)(x[i] + y[i])), "sum component " << i << " is " << p[i]);
        REQUIRE(c, same(m[i], (T)(x[i] - y[i])), "difference component " << i << " is " << m[i]);
        REQUIRE(c, same(t[i], (T)(x[i] * y[i])), "product component " << i << " is " << t[i]);
        REQUIRE(c, same(k[i], (T)(x[i] * s)), "scaled component " << i << " is " << k[i]);
        if (div) REQUIRE(c, same(q[i], (T)(x[i] / y[i])), "quotient component " << i << " is " << q[i]);
        REQUIRE(c, same(e[i], (T)(x[i] + y[i])) && same(f[i], (T)(x[i] * y[i])) && same(g[i], (T)(x[i] * s)), "compound assignment, component " << i << ": " << e[i] << " " << f[i] << " " << g[i]);
        REQUIRE(c, same(ch[i], (T)((x[i] + y[i]) * s + y[i])), "chained assignment, component " << i << " is " << ch[i]);
        REQUIRE(c, same(self[i], (T)(x[i] + x[i])) && same(sq[i], (T)(x[i] * x[i])), "assignment from itself, component " << i);
        h = mc::mix(h, (u64)(long)(p[i] * 16)); h = mc::mix(h, (u64)(long)(t[i] * 16));
    }
    for (size_t i = 0; i < D; ++i) {
        A v = a, u = a * a[i]; v *= v[i];
        for (size_t j = 0; j < D; ++j) REQUIRE(c, same(v[j], (T)(x[j] * x[i])) && same(u[j], (T)(x[j] * x[i])), "scaling by the own component " << i << ": component " << j << " is " << v[j]);
    }
    A w = a; for (size_t i = 0; i < D; ++i) { A v = a; v(i) = s; for (size_t j = 0; j < D; ++j) REQUIRE(c, v[j] == (i == j ? s : x[j]), "writing component " << i << " changed component " << j); }
    c.state(h);
}
template <typename T, size_t D> static void run(Ctx& c, const std::vector<T>& v) { std::vector<T> x(D), y(D); for (auto& e : x) e = c.pick(v); for (auto& e : y) e = c.pick(v); ops<T, D>(c, x, y, c.pick(v)); }
MC_FAMILY(one, "dimension 1, int and double: all pairs and scalars over 9 values", 2) { if (c.flag()) run<int, 1>(c, {0, 1, -1, 2, 3, -7, 100, 46000, -46000}); else run<double, 1>(c, {0, 1, -1, 0.5, 3, -7.25, 1e10, -1e-10, 1e300}); }
MC_FAMILY(two_int, "dimension 2, int: all pairs and scalars over 8 values", 2) { run<int, 2>(c, {0, 1, -2, 7, 1000, -1, 30000, -46340}); }
MC_FAMILY(two_float, "dimension 2, float: all pairs and scalars over 8 values", 2) { run<float, 2>(c, {0, 1, -2.5f, 1e10f, 0.1f, -1e-20f, 3e38f, -0.f}); }
MC_FAMILY(three_double, "dimension 3, double: all pairs and scalars over 5 values", 3) { run<double, 3>(c, {1, -2, 0.1, 0, 1e200}); }
MC_FAMILY(four_long, "dimension 4, 64-bit integers: all pairs and scalars over 3 values", 3) { run<long, 4>(c, {3, -5, 2000000000L}); }
MC_FAMILY(large_unsigned, "dimension 2, unsigned 64-bit integers that a double cannot represent, with wrap-around: all pairs and scalars over 6 values", 2) { run<u64, 2>(c, {0, 3, (1ull << 53) + 1, (1ull << 62) + 5, ~0ull, 0x123456789abcdef1ull}); }
MC_FAMILY(wide, "dimension 17, double: every pair of unit positions, 3 scalars", 1) {
    std::vector<double> x(17, 1.0), y(17, 2.0); int i = c.choose(17), j = c.choose(17); x[i] = 5; y[j] = -0.75; ops<double, 17>(c, x, y, c.pick({2.0, -1.0, 0.3}));
}
MC_FAMILY(small_types, "dimension 3, 8-bit unsigned and 16-bit signed integers: all pairs and scalars over 4 values; dimension 5, float over 2 values", 3) {
    int k = c.choose(3); if (k == 0) run<unsigned char, 3>(c, {1, 2, 200, 255}); else if (k == 1) run<short, 3>(c, {1, -3, 181, -32768 / 200}); else run<float, 5>(c, {2, -0.3f});
}
MC_MAIN()
