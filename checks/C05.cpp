// C05: interval algebra against explicit cell sets.
// QUICK: 1
#include <set>
#include <map>
#include <rofl/common/interval_indices.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <size_t D, typename I> struct Cells {
    typedef std::array<I, D> P;
    typedef rofl::IntervalIndices<D, I> V;
    // Reference description of an interval: min and dimensions.
    struct R { P mn, dm; bool empty() const { for (auto x : dm) if (x <= 0) return true; return false; } };
    static bool in(const R& r, const P& p) { for (size_t d = 0; d < D; ++d) if ((long)p[d] < (long)r.mn[d] || (long)p[d] >= (long)r.mn[d] + (long)r.dm[d]) return false; return true; }
    static std::string show(const R& r) { std::ostringstream o; for (size_t d = 0; d < D; ++d) o << (d ? "x" : "") << "[" << (long)r.mn[d] << "," << (long)r.mn[d] + (long)r.dm[d] << ")"; return o.str(); }
    static std::string show(const P& r) { std::ostringstream o; for (size_t d = 0; d < D; ++d) o << (d ? "," : "(") << (long)r[d]; return o.str() + ")"; }

    template <typename F> static void box(I lo, I hi, F f) {
        P p; p.fill(lo);
        while (true) {
            f(p);
            size_t d = 0;
            while (d < D && ++p[d] > hi) p[d++] = lo;
            if (d == D) return;
        }
    }
    // The interval must contain exactly the cells of pred within the probe box [lo,hi]^D.
    template <typename Pred> static void compare(Ctx& c, const V& v, Pred pred, I lo, I hi, const char* what) {
        c.step();
        size_t n = 0;
        box(lo, hi, [&](const P& p) {
            bool w = pred(p); n += w;
            REQUIRE(c, v.inside(p) == w, what << ": inside" << show(p) << " = " << v.inside(p));
        });
        REQUIRE(c, v.size() == n, what << ": size() = " << v.size() << " but it has " << n << " cells");
        REQUIRE(c, v.empty() == (n == 0), what << ": empty() = " << v.empty() << " with " << n << " cells");
        if (n) {
            P mx = v.max(), mn = v.min(), ft = v.first(), la = v.last();
            for (size_t d = 0; d < D; ++d) {
                I a = hi, b = lo;
                box(lo, hi, [&](const P& p) { if (pred(p)) { a = std::min(a, p[d]); b = std::max(b, p[d]); } });
                REQUIRE(c, mn[d] == a && ft[d] == a, what << ": min()/first() " << show(mn));
                REQUIRE(c, mx[d] == b, what << ": max() " << show(mx));
                REQUIRE(c, la[d] == b + 1, what << ": last() " << show(la));
                REQUIRE(c, (long)v.dimension(d) == (long)b - a + 1 && v.dimensions()[d] == v.dimension(d), what << ": dimension(" << d << ")");
            }
        }
    }
    static R choose(Ctx& c, I mlo, I mhi, I dlo, I dhi) {
        R r;
        for (size_t d = 0; d < D; ++d) { r.mn[d] = mlo + c.choose(mhi - mlo + 1); r.dm[d] = dlo + c.choose(dhi - dlo + 1); }
        return r;
    }
    static V make(Ctx& c, const R& r, int how) {
        V v;
        if (how == 0) return V(r.mn, r.dm);
        if (how >= 3) { P a, b; a.fill(3); b.fill(2); if (how == 3) v.initBounds(a, b); else v.initCentered(a, b); }  // used before
        if (how == 3) { v.initBounds(r.mn, r.dm); return v; }
        if (how == 1) v.initBounds(r.mn, r.dm);
        else { P mx; for (size_t d = 0; d < D; ++d) mx[d] = r.mn[d] + r.dm[d] - 1; v.initMinMax(r.mn, mx); }
        return v;
    }
    static void single(Ctx& c, I mlo, I mhi, I dlo, I dhi) {
        R r = choose(c, mlo, mhi, dlo, dhi);
        int how = c.choose(5);
        I lo = mlo - 2, hi = mhi + dhi + 2;
        DESC(c, show(r) << " how " << how);
        V v = make(c, r, how);
        auto pr = [&](const P& p) { return in(r, p); };
        compare(c, v, pr, lo, hi, "interval");
        compare(c, v.clone(), pr, lo, hi, "clone");
        u64 k = D; for (size_t d = 0; d < D; ++d) k = mc::mix(mc::mix(k, r.mn[d] + 50), r.dm[d] + 50);
        c.state(k);
        // translate along one axis and by a vector
        for (size_t d = 0; d < D; ++d) for (int t = -2; t <= 2; ++t) {
            V w = v; w.translate(d, (I)t);
            R q = r; q.mn[d] += t;
            compare(c, w, [&](const P& p) { return in(q, p); }, lo - 2, hi + 2, "translate along an axis");
        }
        P t; for (size_t d = 0; d < D; ++d) t[d] = d % 2 ? -1 : 2;
        V w = v; w.translate(t);
        R q = r; for (size_t d = 0; d < D; ++d) q.mn[d] += t[d];
        compare(c, w, [&](const P& p) { return in(q, p); }, lo - 2, hi + 2, "translate by a vector");
        compare(c, v, pr, lo, hi, "original after translating a copy");
        // stacked: the cells added right after (incr > 0) or right before (incr < 0)
        if (!r.empty()) for (size_t d = 0; d < D; ++d) for (int n = -3; n <= 3; ++n) {
            V s = v.stacked(d, (I)n);
            R q = r; q.mn[d] = n >= 0 ? r.mn[d] + r.dm[d] : r.mn[d] + n; q.dm[d] = n >= 0 ? n : -n;
            compare(c, s, [&](const P& p) { return in(q, p); }, lo - 3, hi + 3, "stacked");
        }
        compare(c, v, pr, lo, hi, "original after stacking");
    }
    static void centred(Ctx& c) {
        P ce, w;
        for (size_t d = 0; d < D; ++d) { ce[d] = c.range(-2, 2); w[d] = c.range(D < 3 ? -1 : 0, 2); }
        DESC(c, "centre " << show(ce) << " half size " << show(w));
        V v; v.initCentered(ce, w);
        R r; for (size_t d = 0; d < D; ++d) { r.mn[d] = ce[d] - w[d]; r.dm[d] = 2 * w[d] + 1; }
        compare(c, v, [&](const P& p) { return in(r, p); }, -6, 6, "centred");
        V u(ce, w); u.translate(w); u.initCentered(ce, w);
        compare(c, u, [&](const P& p) { return in(r, p); }, -6, 6, "centred, reused object");
        c.state(mc::mix(mc::mix(77, ce[0] + 9), w[0]));
    }
    static void pairs(Ctx& c, I mlo, I mhi, I dlo, I dhi) {
        R a = choose(c, mlo, mhi, dlo, dhi), b = choose(c, mlo, mhi, dlo, dhi);
        DESC(c, show(a) << " with " << show(b));
        V va = make(c, a, 0), vb = make(c, b, 0), vi = va.intersect(vb), vj = vb.intersect(va);
        I lo = mlo - 1, hi = mhi + dhi + 1;
        auto pi = [&](const P& p) { return in(a, p) && in(b, p); };
        compare(c, vi, pi, lo, hi, "intersection");
        compare(c, vj, pi, lo, hi, "intersection, operands swapped");
        compare(c, va, [&](const P& p) { return in(a, p); }, lo, hi, "left operand afterwards");
        u64 k = D + 100; for (size_t d = 0; d < D; ++d) k = mc::mix(mc::mix(mc::mix(mc::mix(k, a.mn[d] + 50), a.dm[d] + 50), b.mn[d] + 50), b.dm[d] + 50);
        c.state(k);
        // operations on the results of operations
        V t = vi; P sh; for (size_t d = 0; d < D; ++d) sh[d] = d % 2 ? 1 : -1;
        t.translate(sh);
        compare(c, t, [&](const P& p) { P q = p; for (size_t d = 0; d < D; ++d) q[d] -= sh[d]; return pi(q); }, lo - 2, hi + 2, "translated intersection");
        if (!vi.empty()) {
            P m = vi.min(), M = vi.max();
            for (size_t d = 0; d < D; ++d) for (int n : {-2, 1}) {
                V s = vi.stacked(d, (I)n);
                compare(c, s, [&](const P& p) {
                    for (size_t e = 0; e < D; ++e) {
                        long l = m[e], h = M[e];
                        if (e == d) { if (n < 0) { h = l - 1; l += n; } else { l = h + 1; h += n; } }
                        if (p[e] < l || p[e] > h) return false;
                    }
                    return true;
                }, lo - 2, hi + 2, "stacked intersection");
                compare(c, s.intersect(vi), [&](const P&) { return false; }, lo - 2, hi + 2, "intersection with the own stack");
            }
        }
    }
};

MC_FAMILY(one_dim, "1D int: min -3..3, dimension -2..5, 5 ways of building (fresh or reused objects): contents, extremes, translate, stack", 2) { Cells<1, int>::single(c, -3, 3, -2, 5); }
MC_FAMILY(one_dim_short, "1D short", 2) { Cells<1, short>::single(c, -3, 3, -2, 5); }
MC_FAMILY(two_dim, "2D int: min -2..1, dimension -2..3", 3) { Cells<2, int>::single(c, -2, 1, -2, 3); }
MC_FAMILY(two_dim_long, "2D long: min -1..1, dimension -1..3", 3) { Cells<2, long>::single(c, -1, 1, -1, 3); }
MC_FAMILY(three_dim, "3D int: min 0..1, dimension -1..2 (min -1..1 thorough)", 3) { Cells<3, int>::single(c, c.tier(0, -1), 1, -1, 2); }
MC_FAMILY(four_dim, "4D int: min 0, dimension -1..1 (-1..2 thorough)", 3) { Cells<4, int>::single(c, 0, 0, -1, c.tier(1, 2)); }
MC_FAMILY(centred1, "1D centred windows: centre -2..2, half size -1..2", 1) { Cells<1, int>::centred(c); }
MC_FAMILY(centred2, "2D centred windows", 2) { Cells<2, int>::centred(c); }
MC_FAMILY(centred3, "3D centred windows", 2) { Cells<3, int>::centred(c); }
MC_FAMILY(pairs1, "all pairs of 1D intervals, min -4..4, dimension -1..6: intersection", 2) { Cells<1, int>::pairs(c, -4, 4, -1, 6); }
MC_FAMILY(pairs2, "all pairs of 2D intervals, min -1..1, dimension -1..2 (-1..3)", 3) { Cells<2, int>::pairs(c, -1, 1, -1, c.tier(2, 3)); }
MC_FAMILY(pairs3, "all pairs of 3D intervals, min 0..1, dimension 0..2 (min -1..1 dimension 1..2 in 3 coordinates thorough)", 3) { if (c.thorough() && c.flag()) Cells<3, int>::pairs(c, -1, 1, 1, 2); else Cells<3, int>::pairs(c, 0, 1, 0, 2); }
MC_FAMILY(pairs2long, "all pairs of 2D long intervals, min 0..1, dimension 0..2", 3) { Cells<2, long>::pairs(c, 0, 1, 0, 2); }

// Wide sizes: the number of cells does not fit 32 bits, indices far from the origin.
MC_FAMILY(wide, "2D/3D boxes with dimensions from {1, 46341, 65536, 100000, 2000000000} and far origins, probe cells at all corners +-1", 2) {
    std::vector<int> dim{1, 46341, 65536, 100000, 1000000000};
    std::vector<int> mn{-1000000000, -7, 0, 1000000};
    std::array<int, 2> m{c.pick(mn), c.pick(mn)}, d{c.pick(dim), c.pick(dim)};
    rofl::IntervalIndices<2, int> v(m, d);
    DESC(c, "min " << m[0] << "," << m[1] << " dims " << d[0] << "," << d[1]);
    c.step();
    c.state(mc::mix(mc::mix(mc::mix(m[0], m[1]), d[0]), d[1]));
    REQUIRE(c, v.size() == (size_t)d[0] * (size_t)d[1], "size() = " << v.size() << " expected " << (size_t)d[0] * (size_t)d[1]);
    REQUIRE(c, !v.empty(), "empty()");
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int e = 0; e < 2; ++e) for (int f = 0; f < 2; ++f) {
        std::array<int, 2> p{m[0] + (e ? d[0] - 1 : 0) + a, m[1] + (f ? d[1] - 1 : 0) + b};
        bool w = p[0] >= m[0] && p[0] - m[0] < d[0] && p[1] >= m[1] && p[1] - m[1] < d[1];
        REQUIRE(c, v.inside(p) == w, "inside(" << p[0] << "," << p[1] << ")");
    }
}
template <typename I> struct Wide {
    typedef __int128 L;
    template <size_t D> static void run(Ctx& c, const std::vector<I>& mn, const std::vector<I>& dim) {
        typedef rofl::IntervalIndices<D, I> V;
        typedef std::array<I, D> P;
        P m[2], d[2];
        for (int k = 0; k < 2; ++k) for (size_t e = 0; e < D; ++e) { m[k][e] = c.pick(mn); d[k][e] = c.pick(dim); }
        auto show = [&](int k) { std::ostringstream o; for (size_t e = 0; e < D; ++e) o << " " << (long)m[k][e] << "+" << (long)d[k][e]; return o.str(); };
        DESC(c, "A:" << show(0) << " B:" << show(1));
        c.step();
        u64 k = D; for (int q = 0; q < 2; ++q) for (size_t e = 0; e < D; ++e) k = mc::mix(mc::mix(k, (u64)m[q][e]), (u64)d[q][e]);
        c.state(k);
        V a(m[0], d[0]), b(m[1], d[1]), x = a.intersect(b);
        L cells = 1; bool empty = false;
        P lo, n;
        for (size_t e = 0; e < D; ++e) {
            L l = std::max<L>(m[0][e], m[1][e]), h = std::min<L>((L)m[0][e] + d[0][e], (L)m[1][e] + d[1][e]);
            if (h <= l) empty = true;
            lo[e] = (I)l; n[e] = (I)(h - l); cells *= h - l;
        }
        if (empty) { REQUIRE(c, x.empty() && x.size() == 0, "disjoint boxes have a common part of size " << x.size()); }
        else {
            REQUIRE(c, x.min() == lo && x.dimensions() == n, "the common part has wrong bounds");
            REQUIRE(c, !x.empty() && x.size() == (size_t)cells, "the common part has size " << x.size() << " expected " << (size_t)cells);
        }
        for (size_t e = 0; e < D; ++e) {
            I t = (I)(m[0][e] > 0 ? -(m[0][e] / 2) : 100);
            V w = a; w.translate(e, t);
            P mm = m[0]; mm[e] = (I)(mm[e] + t);
            REQUIRE(c, w.min() == mm && w.dimensions() == d[0] && w.size() == a.size(), "translate along " << e);
            V s = a.stacked(e, (I)100);
            mm = m[0]; mm[e] = (I)(mm[e] + d[0][e]);
            P dd = d[0]; dd[e] = 100;
            REQUIRE(c, s.min() == mm && s.dimensions() == dd, "stacked by 100 along " << e);
            s = a.stacked(e, (I)-100);
            mm = m[0]; mm[e] = (I)(mm[e] - 100);
            REQUIRE(c, s.min() == mm && s.dimensions() == dd, "stacked by -100 along " << e);
        }
        REQUIRE(c, a.min() == m[0] && a.dimensions() == d[0] && b.min() == m[1] && b.dimensions() == d[1], "an operand changed");
    }
};
MC_FAMILY(wide_pairs_int, "all pairs of 2D int boxes with min from {-1e9, -40000, 0, 9e8} and dimensions from {1, 50000, 2e8, 1e9}: intersection, translation and stacking", 3) { Wide<int>::run<2>(c, {-1000000000, -40000, 0, 900000000}, {1, 50000, 200000000, 1000000000}); }
MC_FAMILY(wide_pairs_short, "all pairs of 2D short boxes, min {-20000, -1, 500}, dimensions {1, 300, 15000}", 3) { Wide<short>::run<2>(c, {-20000, -1, 500}, {1, 300, 15000}); }
MC_FAMILY(wide_pairs_long, "all pairs of 2D long boxes, min {-2^40, 0, 2^33}, dimensions {1, 2^20, 2^31}", 3) { Wide<long>::run<2>(c, {-(1l << 40), 0, 1l << 33}, {1, 1l << 20, 1l << 31}); }
MC_FAMILY(wide_pairs_3d, "all pairs of 3D int boxes, min {-1000000, 0}, dimensions {1, 2000, 1500000}", 3) { Wide<int>::run<3>(c, {-1000000, 0}, {1, 2000, 1500000}); }
// Arguments that are part of the interval itself.
MC_FAMILY(aliased, "2D int boxes, min -2..2, dimension 0..3: set again from their own corners and sizes, moved by their own corner, intersected with themselves", 3) {
    typedef Cells<2, int> K; K::R r = K::choose(c, -2, 2, 0, 3); DESC(c, K::show(r)); int k = c.choose(5);
    K::V v(r.mn, r.dm); K::R w = r;
    if (k == 0) { v.initBounds(v.min(), v.dimensions()); }
    else if (k == 1) { v.initMinMax(v.min(), v.max()); }
    else if (k == 2) { v.translate(v.min()); for (int d = 0; d < 2; ++d) w.mn[d] += r.mn[d]; }
    else if (k == 3) { v.initCentered(v.min(), {1, 2}); for (int d = 0; d < 2; ++d) { w.mn[d] = r.mn[d] - d - 1; w.dm[d] = 2 * d + 3; } }
    else { v = v.intersect(v); }
    K::compare(c, v, [&](const K::P& p) { return K::in(w, p); }, -9, 9, "interval built from its own parts"); c.state(mc::mix(mc::mix(r.mn[0] + 9, r.mn[1] + 9), mc::mix(mc::mix(r.dm[0], r.dm[1]), k)));
}
MC_FAMILY(five_dim, "5D int: min 0, dimension 1 (0..1 thorough)", 4) { Cells<5, int>::single(c, 0, 0, c.tier(1, 1, 0), 1); }
MC_FAMILY(six_pairs, "all pairs of 6D intervals, min 0, dimension 0..1", 5) { Cells<6, int>::pairs(c, 0, 0, 0, 1); }
// Higher dimensions: pairs of boxes that differ in two directions only.
template <size_t D> static void gaps(Ctx& c) {
    typedef Cells<D, int> K; typename K::R a, b; int d1 = c.choose(D), d2 = c.choose(D); for (size_t d = 0; d < D; ++d) { a.mn[d] = b.mn[d] = 1 - (int)d; a.dm[d] = b.dm[d] = 2 + d % 3; }
    b.mn[d1] += c.range(-9, 9); b.dm[d1] = c.pick({0, 1, 2, 6}); if (d2 != d1) { b.mn[d2] += c.range(-6, 6); b.dm[d2] = c.pick({1, 3}); }
    bool flip = c.flag(); if (flip) std::swap(a, b); DESC(c, K::show(a) << " with " << K::show(b)); c.step(); typename K::V x = K::make(c, a, 0), y = K::make(c, b, 1), v = x.intersect(y); typename K::R w; bool e = false;
    for (size_t d = 0; d < D; ++d) { w.mn[d] = std::max(a.mn[d], b.mn[d]); w.dm[d] = std::min(a.mn[d] + a.dm[d], b.mn[d] + b.dm[d]) - w.mn[d]; if (w.dm[d] <= 0 || a.dm[d] <= 0 || b.dm[d] <= 0) e = true; }
    size_t n = e ? 0 : 1; if (!e) for (size_t d = 0; d < D; ++d) n *= w.dm[d]; REQUIRE(c, v.empty() == e && v.size() == n, "the intersection has " << v.size() << " cells, empty " << v.empty() << ", expected " << n);
    c.state(mc::mix(mc::mix(d1 * D + d2, b.mn[d1] * 64 + b.mn[d2]), b.dm[d1] * 64 + b.dm[d2]));
    for (size_t d = 0; d < D; ++d) { if (!e) REQUIRE(c, v.min()[d] == w.mn[d] && v.dimension(d) == w.dm[d] && v.max()[d] == w.mn[d] + w.dm[d] - 1 && v.last()[d] == w.mn[d] + w.dm[d], "wrong bounds in direction " << d); REQUIRE(c, v.dimension(d) >= 0, "the size in direction " << d << " is " << v.dimension(d)); }
    typename K::P p = a.mn; for (size_t d = 0; d < D; ++d) for (int s = -2; s < 8; ++s) { p = w.mn; p[d] += s; bool i = K::in(a, p) && K::in(b, p); REQUIRE(c, v.inside(p) == i, "inside" << K::show(p) << " = " << v.inside(p)); }
}
MC_FAMILY(gaps5, "5D boxes that differ in two directions: shifted by -9..9 and -6..6, sizes 0, 1, 2, 6 and 1, 3", 3) { gaps<5>(c); }
MC_FAMILY(gaps9, "9D boxes that differ in two directions: shifted by -9..9 and -6..6, sizes 0, 1, 2, 6 and 1, 3", 3) { gaps<9>(c); }
MC_MAIN()
