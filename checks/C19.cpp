// C19: scalar consensus estimation against enumeration of all consensus sets.
// QUICK: 1
#include <algorithm>
#include <cmath>
#include <cstring>
#include <vector>
#include <iostream>
#include <rofl/common/tls_scalar_consensus.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename F> static void check(Ctx& c, const std::vector<F>& v, const std::vector<F>& r, double tol, double gap = 1e-5) {
    int n = v.size();
    if (c.describing) { DESC(c, "values"); for (F x : v) DESC(c, " " << x); DESC(c, " ranges"); for (F x : r) DESC(c, " " << x); }
    F est = F(12345); std::vector<bool> in(3, true);
    std::vector<F> v0 = v, r0 = r;
    rofl::estimateTranslationTls<F>(v, r, est, in);
    c.step();
    u64 h = n; for (int i = 0; i < n; ++i) { double x = v[i], y = r[i]; u64 p, q; memcpy(&p, &x, 8); memcpy(&q, &y, 8); h = mc::mix(mc::mix(h, p), q); } c.state(h);
    REQUIRE(c, v == v0 && r == r0, "inputs changed");
    std::vector<double> e; bool ties = false;
    for (int i = 0; i < n; ++i) { e.push_back((double)v[i] - r[i]); e.push_back((double)v[i] + r[i]); }
    std::sort(e.begin(), e.end());
    for (size_t k = 1; k < e.size(); ++k) if (e[k] - e[k - 1] < gap) ties = true;
    typedef std::vector<char> S;
    auto mean = [&](const S& s) { double a = 0, b = 0; for (int i = 0; i < n; ++i) if (s[i]) { double z = std::max((double)r[i], 1e-6), w = 1.0 / (z * z); a += w * v[i]; b += w; } return a / b; };
    auto cost = [&](const S& s) { double m = mean(s), q = 0; for (int i = 0; i < n; ++i) q += s[i] ? (v[i] - m) * (v[i] - m) : r[i]; return q; };
    std::vector<S> must;  // all values whose interval contains a point inside an elementary segment
    for (size_t k = 1; k < e.size(); ++k) {
        if (e[k] - e[k - 1] < gap) continue;
        double p = (e[k] + e[k - 1]) / 2; S s(n, 0); bool any = false;
        for (int i = 0; i < n; ++i) if (p > v[i] - r[i] && p < v[i] + r[i]) s[i] = any = true;
        if (any) must.push_back(s);
    }
    double best = 1e300; for (auto& s : must) best = std::min(best, cost(s));
    bool ok = false; double got = 1e300;
    auto test = [&](const S& s) { if (std::fabs(mean(s) - est) <= tol) { got = std::min(got, cost(s)); if (cost(s) <= best + tol * n) ok = true; } };
    for (auto& s : must) test(s);
    if (!ok && ties && n <= 12)  // with equal endpoints any group sharing a point may be met
        for (int mk = 1; mk < (1 << n) && !ok; ++mk) {
            S s(n, 0); double lo = -1e300, hi = 1e300;
            for (int i = 0; i < n; ++i) if (mk >> i & 1) { s[i] = 1; lo = std::max(lo, (double)v[i] - r[i]); hi = std::min(hi, (double)v[i] + r[i]); }
            if (lo <= hi + std::min(gap, 1e-6)) test(s);
        }
    REQUIRE(c, ok, "estimate " << est << (got < 1e300 ? " has cost " : " is not the mean of any consensus set, cost ") << got << ", the best consensus set costs " << best);
    REQUIRE(c, (int)in.size() == n, "inliers has size " << in.size());
    for (int i = 0; i < n; ++i) {
        double d = std::fabs((double)v[i] - est) - r[i];
        auto dyadic = [](double x) { return std::fabs(x) < 1e4 && x * 64 == std::floor(x * 64); };
        // on the border only when the arithmetic is exact
        if (std::fabs(d) > tol || (dyadic(v[i]) && dyadic(r[i]) && dyadic(est))) REQUIRE(c, in[i] == (d < 0), "value " << v[i] << " range " << r[i] << " is marked " << (in[i] ? "inlier" : "outlier") << " of " << est);
    }
}
// No two endpoints coincide: value k/2 + i/64, ranges with other fractions.
template <typename F> static void grid(Ctx& c, int nmax, int vals, double tol) {
    static const double R[3] = {0.3, 1.17, 2.71};
    int n = c.range(1, nmax);
    std::vector<F> v, r;
    for (int i = 0; i < n; ++i) { v.push_back((c.choose(vals) - vals / 2) * F(0.5) + F(i) / 64); r.push_back(F(R[c.choose(3)])); }
    check<F>(c, v, r, tol);
}
MC_FAMILY(distinct_double, "1..4 values on a grid of 7 (9) positions, ranges from 3 values, double, all assignments; thorough tier up to 12", 3) { grid<double>(c, 4, c.tier(6, 9, 12), 1e-9); }
MC_FAMILY(distinct_float, "1..3 (4) values on a grid of 9 positions, ranges from 3 values, float", 3) { grid<float>(c, c.tier(3, 4), 9, 2e-4); }
MC_FAMILY(five, "5 values on a grid of 5 (6) positions, 2 ranges, double; thorough tier up to 7", 3) {
    static const double R[2] = {0.4, 1.3};
    std::vector<double> v, r; int g = c.tier(5, 6, 7);
    for (int i = 0; i < 5; ++i) { v.push_back(c.choose(g) * 0.7 + i / 64.0 - 1); r.push_back(R[c.choose(2)]); }
    check<double>(c, v, r, 1e-9);
}
MC_FAMILY(six, "6 values on a grid of 3 (4) positions, 2 ranges, double; 7 values on 2 (3) positions; thorough tier up to 5", 3) {
    static const double R[2] = {0.45, 1.6}; int n = c.range(6, 7);
    std::vector<double> v, r; int g = c.tier(3, 4, 5) - (n - 6);
    for (int i = 0; i < n; ++i) { v.push_back(c.choose(g) * 0.9 + i / 32.0 - 1); r.push_back(R[c.choose(2)] + i / 1024.0); }
    check<double>(c, v, r, 1e-9);
}
MC_FAMILY(permuted, "5 (6) given measures in every order, 6 instances", 2) {
    static const double VV[6][6] = {{0, 1, 2, 3, 4, 5}, {0, 0.1, 0.25, 7, 7.13, -4}, {10, 10.5, 11, 11.7, 9, 30}, {-1, 1.03, -1.1, 1.2, 0.01, 0.33}, {1e3, 1e3 + 0.5, -1e3, 2, 2.2, 2.5}, {5, 5.6, 6.3, 4.1, 3.3, 2.6}};
    static const double RR[6][6] = {{0.51, 0.72, 1.13, 0.3, 2.2, 0.9}, {0.5, 0.6, 0.71, 0.05, 0.4, 0.33}, {1, 0.26, 0.7, 0.9, 0.45, 8}, {1.21, 1.4, 0.3, 0.7, 2, 0.11}, {1, 2, 3000, 0.3, 0.17, 0.6}, {0.31, 0.9, 1.7, 0.55, 0.61, 2.4}};
    int q = c.choose(6), n = c.tier(5, 6); std::vector<int> left; for (int i = 0; i < n; ++i) left.push_back(i);
    std::vector<double> v, r;
    while (!left.empty()) { int k = c.choose(left.size()); v.push_back(VV[q][left[k]]); r.push_back(RR[q][left[k]]); left.erase(left.begin() + k); }
    check<double>(c, v, r, 1e-8);
}
MC_FAMILY(touching, "1..4 values over integers 0..3, ranges from {0.5, 1, 2}: equal and touching endpoints", 3) {
    static const double R[3] = {0.5, 1, 2};
    int n = c.range(1, 4); std::vector<double> v, r;
    for (int i = 0; i < n; ++i) { v.push_back(c.choose(4)); r.push_back(R[c.choose(3)]); }
    check<double>(c, v, r, 1e-9);
}
MC_FAMILY(borders, "1..3 measures at 0 with range 0.5 or 1 and one at each of 9 dyadic places with ranges 0.25..4, in either order: measures exactly one range away from the estimate", 3) {
    int m = c.range(1, 3); double r0 = c.pick({0.5, 1.0}), off = c.pick({0.0, 3.0, -1.5}); std::vector<double> v(m, off), r(m, r0);
    int k = c.range(1, 2);
    for (int i = 0; i < k; ++i) { v.push_back(off + c.pick({-4.0, -2.0, -1.0, -0.5, 0.25, 0.5, 1.0, 2.0, 4.0})); r.push_back(c.pick({0.25, 0.5, 1.0, 2.0, 4.0})); }
    if (c.flag()) { std::reverse(v.begin(), v.end()); std::reverse(r.begin(), r.end()); }
    check<double>(c, v, r, 1e-9);
}
MC_FAMILY(tiny_ranges, "1..3 values in units of 1e-7, ranges of 0.3, 1.17, 2.71, 9 and 14 units: below and above the 1e-6 where the weight is limited", 3) {
    static const double R[5] = {0.3e-7, 1.17e-7, 2.71e-7, 9e-7, 14e-7}; int n = c.range(1, 3); std::vector<double> v, r;
    for (int i = 0; i < n; ++i) { v.push_back(1e-7 * ((c.choose(5) - 2) * 2.5 + i / 64.0)); r.push_back(R[c.choose(5)]); }
    check<double>(c, v, r, 2e-12, 1e-11);
}
MC_FAMILY(equal_endpoints, "m equal measures (1..40) and k others of one value (0..40), 3 range patterns: many coinciding endpoints", 2) {
    int m = c.range(1, 40), k = c.range(0, 40), rp = c.choose(3); std::vector<double> v, r;
    for (int i = 0; i < m + k; ++i) { bool a = i % 2 ? i / 2 < k : i / 2 >= m; if (i >= 2 * std::min(m, k)) a = k > m; v.push_back(a ? 4.5 : 1.25); r.push_back(rp == 0 ? 0.5 : rp == 1 ? (a ? 0.25 : 0.75) : 4.0); }
    check<double>(c, v, r, 1e-8);
}
MC_FAMILY(scales, "1..3 values in units of 1e-4, 1e-2, 1, 1e2, 1e3, ranges of the same unit times {0.3, 1.17, 10}, offsets 0 and 50 units", 3) {
    double u = c.pick({1e-4, 0.01, 1.0, 100.0, 1000.0}), off = c.flag() ? 50 * u : 0; static const double R[3] = {0.3, 1.17, 10};
    int n = c.range(1, 3); std::vector<double> v, r;
    for (int i = 0; i < n; ++i) { v.push_back(off + u * ((c.choose(6) - 3) * 0.5 + i / 64.0)); r.push_back(u * R[c.choose(3)]); }
    check<double>(c, v, r, u < 0.001 ? 1e-10 : 1e-8 * std::max(1.0, u * u));
}
MC_FAMILY(clusters, "m inliers around a centre among k spread outliers: m 1..12 (20), k 0..12 (20), 3 range patterns, 3 orders; thorough tier up to 30/30", 2) {
    int m = c.range(1, c.tier(12, 20, 30)), k = c.range(0, c.tier(12, 20, 30)), rp = c.choose(3), ord = c.choose(3);
    std::vector<double> v, r;
    for (int i = 0; i < m; ++i) v.push_back(3.3 + 0.013 * ((i * 7) % m) + i / 4096.0);
    for (int i = 0; i < k; ++i) v.push_back(-20.0 + 3.17 * i + i * i / 512.0);
    if (ord == 1) std::reverse(v.begin(), v.end());
    if (ord == 2) for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[v.size() - 1 - i]);
    for (size_t i = 0; i < v.size(); ++i) r.push_back(rp == 0 ? 0.5 + i / 1e4 : rp == 1 ? 0.2 + 0.1 * (i % 4) + i / 1e4 : 4.0 + 0.3 * (i % 3) + i / 1e4);
    check<double>(c, v, r, 1e-8);
}
MC_FAMILY(scale, "127..130, 255..258, 300 (400) measures: a group of them around a value among outliers, 3 sizes of the group, 3 orders, 2 range patterns; and all measures in one group", 2) {
    int n = c.pick({127, 128, 129, 130, 255, 256, 257, 258, c.tier(300, 300, 400)}), g = c.choose(4), ord = c.choose(3), rp = c.choose(2);
    int m = g == 0 ? n : g == 1 ? n / 2 : g == 2 ? 20 : 3; std::vector<double> v, r; DESC(c, n << " measures, " << m << " in the group, order " << ord << " ranges " << rp << " ");
    for (int i = 0; i < m; ++i) v.push_back(3.3 + 0.0013 * ((i * 7) % m) + i / 65536.0);
    for (int i = m; i < n; ++i) v.push_back(-300.0 + 3.17 * i + i * i / 8192.0);
    if (ord == 1) std::reverse(v.begin(), v.end());
    if (ord == 2) for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[v.size() - 1 - i]);
    for (int i = 0; i < n; ++i) r.push_back((rp == 0 ? 0.9 : 0.7 + 0.1 * (i % 4)) + i / 1e5);
    check<double>(c, v, r, 1e-8, 1e-12);
}
MC_FAMILY(many, "32767..32770, 65535..65538 and 100000 measures: groups of 3 sizes at 3 places of the list, the others apart from each other", 2) {
    int n = c.pick({32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538, 100000}), m = c.pick({2, 300, 5000}), at = c.choose(3); DESC(c, n << " measures, " << m << " in the group, place " << at);
    int from = at == 0 ? 0 : at == 1 ? (n - m) / 2 : n - m; std::vector<double> v(n), r(n, 0.9); double sum = 0; for (int i = 0; i < n; ++i) { v[i] = -0.5 * n + 2.0 * i; if (i >= from && i < from + m) { v[i] = -3.0 * n + (i % 16) / 64.0; sum += v[i]; } }
    double est = 0; std::vector<bool> in; rofl::estimateTranslationTls(v, r, est, in); c.step(n); c.state(mc::mix(n, m * 3 + at));
    REQUIRE(c, std::fabs(est - sum / m) < 1e-3, "the estimate is " << est << ", the mean of the only group is " << sum / m); REQUIRE(c, (int)in.size() == n, in.size() << " flags"); for (int i = 0; i < n; ++i) REQUIRE(c, in[i] == (i >= from && i < from + m), "measure " << i << " flagged " << in[i]);
}
MC_MAIN()
