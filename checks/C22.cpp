// C22: scaled modified Bessel functions and their look-up table, against quadrature.
// QUICK: 1
// LIBS: common
#include <rofl/common/functions.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef std::vector<double> V;

// 2 exp(-x) I_k(x) = (1/pi) * integral over [0,2pi] of exp(x (cos t - 1)) cos(k t): the trapezoidal
// rule on N points is exact up to the order N - k, negligible here.
static V ref(int n, double x) {
    x = std::fabs(x);
    int N = 80 + n + (int)(11 * std::sqrt(x));
    static std::vector<V> cosT;
    if ((int)cosT.size() <= N) cosT.resize(N + 1);
    V& ct = cosT[N]; if (ct.empty()) for (int i = 0; i < N; ++i) ct.push_back(std::cos(2 * M_PI * i / N));
    V r(n + 1, 0.0);
    for (int i = 0; i < N; ++i) { double e = std::exp(x * (ct[i] - 1)); if (e < 1e-18) continue; for (int k = 0; k <= n; ++k) r[k] += e * ct[(long)k * i % N]; }
    for (auto& y : r) y *= 2.0 / N;
    return r;
}
// Arguments: fine near zero, coarse up to the declared maximum 600.
static double arg(int i) { return i < 400 ? i * 0.0125 : i < 800 ? 5 + (i - 400) * 0.11 : 49 + (i - 800) * 2.755; }
static const int NARG = 1001;

MC_FAMILY(order0, "evaluatePnebi0Polynom at 80x1001 arguments over [-600,600] and around the switching point 3.75", 1) {
    int i = c.choose(NARG);
    DESC(c, "arguments from " << arg(i));
    for (int j = 0; j < 80; ++j) for (int s = -1; s <= 1; s += 2) {
        double x = s * (arg(i) + j * (i < 400 ? 0.00016 : i < 800 ? 0.0014 : 0.035)); if (std::fabs(x) > 600) continue;
        double g = rofl::evaluatePnebi0Polynom(x), w = ref(0, x)[0]; c.step();
        REQUIRE(c, std::fabs(g - w) <= 4e-7, "order 0 at " << x << " = " << g << " expected " << w);
    }
    for (double d : {-1e-9, 0.0, 1e-9}) REQUIRE(c, std::fabs(rofl::evaluatePnebi0Polynom(3.75 + d) - ref(0, 3.75)[0]) <= 4e-7, "order 0 at 3.75");
    c.state(i);
}
static void vec(Ctx& c, int n, double x, V& v) {
    c.step();
    rofl::evaluatePnebiVector(n, x, v);
    V w = ref(n, x);
    REQUIRE(c, (int)v.size() >= n + 1, "vector of size " << v.size() << " for orders 0.." << n);
    for (int k = 0; k <= n; ++k) REQUIRE(c, std::fabs(v[k] - w[k]) <= 3e-6, "orders 0.." << n << " at " << x << ": order " << k << " = " << v[k] << " expected " << w[k]);
}
MC_FAMILY(vectors, "evaluatePnebiVector: maximum order 0..64, 100, 127, 128, 200, 400, 1001 arguments of both signs over [0,600]; fresh, small, large and reused vectors and ones holding NaN, infinity and huge numbers", 2) {
    static const int BIG[5] = {100, 127, 128, 200, 400}; int q = c.choose(70), n = q < 65 ? q : BIG[q - 65]; int b = c.choose(91);
    DESC(c, "orders 0.." << n << " block " << b);
    V reused(n + 1, 7.0);
    for (int i = b * 11; i < (b + 1) * 11; ++i) { V fresh, small(1, 3.0), large(n + 6, -8.0); vec(c, n, arg(i), large); vec(c, n, arg(i), reused); vec(c, n, -arg(i), small); if (i % 5 == 0) vec(c, n, arg(i), fresh); if (i % 5 == 1) for (double g : {std::nan(""), HUGE_VAL, 1e308, -1e308}) { V bad(n + 1 + i % 3, g); vec(c, n, arg(i), bad); } }
    for (double t : {0.0, 1e-300, 1e-9, 0.999e-6, 1.001e-6, 1e-5, 1e-4, 1e-3}) if (b == 0) { vec(c, n, t, reused); vec(c, n, -t, reused); }
    c.state(mc::mix(n, b));
}
MC_FAMILY(table, "PnebiLUT: orders 0, 1, 2, 3, 5, 10, 20 (60), tolerances 1, 0.5, 0.1, 0.02, 0.003 (0.0003): every argument of the list, both signs, all orders, both evaluations, constructed, or initialised again over a table of another order, of the same order and a coarser or finer tolerance, or over itself", 2) {
    int n = c.pick({0, 1, 2, 3, 5, 10, c.tier(20, 60)}); double tol = c.pick({1.0, 0.5, 0.1, 0.02, c.tier(0.003, 0.0003)}); int how = c.choose(5), b = c.choose(7);
    DESC(c, "orders 0.." << n << " tolerance " << tol << " block " << b);
    static int kn = -1, kh = -1; static double kt = -1; static rofl::PnebiLUT l, fresh;
    if (kn != n || kt != tol || kh != how) { if (how) { l = how == 1 ? rofl::PnebiLUT(2, 0.3) : rofl::PnebiLUT(n, how == 2 ? tol * 5 : how == 3 ? tol / 3 : tol); l.init(n, tol); } else l = rofl::PnebiLUT(n, tol); fresh = rofl::PnebiLUT(n, tol); kn = n; kt = tol; kh = how; }
    REQUIRE(c, l.getOrderMax() == n, "maximum order " << l.getOrderMax() << " expected " << n);
    for (int i = b * 143; i < (b + 1) * 143; ++i) for (int s = -1; s <= 1; s += 2) {
        double x = s * arg(i); V w = ref(n, x), y(i % 2 ? 0 : n + 3, 5.0); c.step();
        l.eval(x, y);
        REQUIRE(c, (int)y.size() >= n + 1, "table gives " << y.size() << " values for orders 0.." << n);
        for (int k = 0; k <= n; ++k) {
            double g = l.eval(k, x);
            REQUIRE(c, std::fabs(g - w[k]) <= tol, "order " << k << " at " << x << " = " << g << " expected " << w[k] << " within " << tol);
            double f = fresh.eval(k, x); REQUIRE(c, std::fabs(g - f) <= 1e-12, "order " << k << " at " << x << " = " << g << " in the table initialised again, " << f << " in a new one");
            REQUIRE(c, std::fabs(g - y[k]) <= 1e-12, "order " << k << " at " << x << ": one at a time " << g << ", all together " << y[k]);
        }
    }
    for (double x : {0.0, -0.0, 600.0, -600.0, 599.999}) for (int k = 0; k <= n; ++k) { double g = l.eval(k, x), w = ref(n, x)[k]; REQUIRE(c, std::fabs(g - w) <= tol, "order " << k << " at " << x << " = " << g); }
    c.state(mc::mix(mc::mix(n, (u64)(tol * 1e6)), b * 8 + how));
}
MC_FAMILY(two_tables, "two tables alive together, each of the orders 0, 2, 5, 9 and tolerances 0.3, 0.02: constructed one after the other, copied or moved, evaluated in turns, one destroyed or initialised again while the other is used", 2) {
    static const int O[4] = {0, 2, 5, 9}; static const double T[2] = {0.3, 0.02}; int na = O[c.choose(4)], nb = O[c.choose(4)]; double ta = T[c.choose(2)], tb = T[c.choose(2)]; int how = c.choose(4);
    DESC(c, "orders " << na << " and " << nb << " tolerances " << ta << " and " << tb << " case " << how);
    auto test = [&](const rofl::PnebiLUT& l, int n, double tol, int i) {
        double x = arg(i) * (i % 2 ? -1 : 1); V w = ref(n, x), y; l.eval(x, y); c.step();
        REQUIRE(c, l.getOrderMax() == n && (int)y.size() >= n + 1, "maximum order " << l.getOrderMax() << ", " << y.size() << " values, expected orders 0.." << n);
        for (int k = 0; k <= n; ++k) { double g = l.eval(k, x); REQUIRE(c, std::fabs(g - w[k]) <= tol && std::fabs(g - y[k]) <= 1e-12, "order " << k << " at " << x << " = " << g << " and " << y[k] << ", expected " << w[k] << " within " << tol); }
    };
    rofl::PnebiLUT a(na, ta); { rofl::PnebiLUT b(nb, tb); for (int i = 0; i < NARG; i += 9) { test(a, na, ta, i); test(b, nb, tb, i); V v; if (i % 2) vec(c, na + 1, arg(i), v); } if (how == 1) a = b; if (how == 2) { b.init(na, ta); for (int i = 0; i < NARG; i += 50) test(b, na, ta, i); } if (how == 3) { rofl::PnebiLUT k(a); a = std::move(b); for (int i = 0; i < NARG; i += 50) test(k, na, ta, i); } }
    bool o = how == 1 || how == 3; for (int i = 0; i < NARG; i += 7) test(a, o ? nb : na, o ? tb : ta, i);
    c.state(mc::mix(mc::mix(na * 16 + nb, ta * 100), mc::mix(tb * 100, how)));
}
MC_MAIN()
