// C25: association of two sets by mutual coherence against enumeration of all partial matchings.
// LIBS: common geometry
#include <rofl/geometry/correspondence_graph_association.h>
#include <set>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef rofl::CorrespondenceGraphAssociation A;
typedef std::vector<std::vector<double>> Dist;
typedef std::vector<std::pair<int, int>> Match;

static Dist table(int n) { return Dist(n, std::vector<double>(n, 0)); }
static void insert(A& a, bool src, const Dist& d) {
    std::vector<int> id(d.size()); for (size_t i = 0; i < id.size(); ++i) id[i] = i;
    auto f = [&](int i, int j) { return (rofl::Scalar)d[i][j]; };
    if (src) a.insertSrc(id.begin(), id.end(), f); else a.insertDst(id.begin(), id.end(), f);
}
static std::set<Match> best(const Dist& s, const Dist& d, double tol, double dmin) {
    std::set<Match> res; size_t top = 0; Match cur; std::vector<char> used(d.size(), 0);
    std::function<void(int)> rec = [&](int i) {
        if (cur.size() + (s.size() - i) < top) return;
        if (i == (int)s.size()) { if (cur.size() > top) { top = cur.size(); res.clear(); } res.insert(cur); return; }
        for (int k = 0; k < (int)d.size(); ++k) if (!used[k]) {
            bool ok = true;
            for (auto& p : cur) { double x = s[p.first][i], y = d[p.second][k]; if (!(x > dmin && std::fabs(x - y) < tol)) { ok = false; break; } }
            if (!ok) continue;
            used[k] = 1; cur.push_back({i, k}); rec(i + 1); cur.pop_back(); used[k] = 0;
        }
        rec(i + 1);
    };
    rec(0); return res;
}
static void check(Ctx& c, A& a, const Dist& s, const Dist& d, double tol, double dmin, bool cliques) {
    std::set<Match> e = best(s, d, tol, dmin), g; size_t n;
    if (cliques) {
        std::vector<rofl::LabelSet> v(1); v[0].insert(77); a.associate(v); n = v.size();
        for (auto& q : v) { Match m; for (int x : q) m.push_back({x / (int)d.size(), x % (int)d.size()}); std::sort(m.begin(), m.end()); g.insert(m); }
    } else {
        std::vector<A::AssociationHypothesis> v(2); v[0].associations.push_back({9, 9}); a.associate(v); n = v.size();
        for (auto& q : v) { Match m = q.associations; std::sort(m.begin(), m.end()); g.insert(m); }
    }
    c.step();
    u64 h = mc::mix(s.size(), d.size()); for (auto& m : g) for (auto& p : m) h = mc::mix(h, p.first * 16 + p.second); c.state(h);
    if (n == 0 && (s.empty() || d.empty())) return;
    REQUIRE(c, n == g.size(), n << " associations reported, only " << g.size() << " are different");
    for (auto& m : g) if (!e.count(m)) {
        std::ostringstream o; for (auto& p : m) o << "(" << p.first << "," << p.second << ")";
        REQUIRE(c, false, "association " << o.str() << " of " << m.size() << " pairs is not a maximum coherent one (" << e.begin()->size() << " pairs)");
    }
    for (auto& m : e) if (!g.count(m)) { std::ostringstream o; for (auto& p : m) o << "(" << p.first << "," << p.second << ")"; REQUIRE(c, false, "maximum association " << o.str() << " is not reported"); }
}
static void show(Ctx& c, const char* n, const Dist& d) { if (c.describing) { DESC(c, n << " " << d.size() << " items, distances"); for (size_t i = 0; i < d.size(); ++i) for (size_t j = i + 1; j < d.size(); ++j) DESC(c, " " << d[i][j]); DESC(c, "; "); } }
static Dist chooseDist(Ctx& c, int n, const std::vector<double>& v) { Dist d = table(n); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) d[i][j] = d[j][i] = c.pick(v); return d; }

MC_FAMILY(three, "0..3 source and 0..3 destination items, every assignment of 4 distances to all pairs, tolerance 0.1 or 1.1", 3) {
    int n = c.choose(4), m = c.choose(4); std::vector<double> v{1, 2, 3, 1.05}; Dist s = chooseDist(c, n, v), d = chooseDist(c, m, v); double tol = c.pick({0.1, 1.02});
    show(c, "source", s); show(c, "destination", d); DESC(c, "tolerance " << tol);
    A a; a.setTolerance((float)tol); insert(a, true, s); insert(a, false, d); check(c, a, s, d, tol, 0, c.flag());
}
MC_FAMILY(four, "4 source and 3..4 destination items, every assignment of 2 distances (3 for 4x3, thorough) to all pairs", 3) {
    int m = c.range(3, 4); std::vector<double> v{1, 2}; if (m == 3 && c.thorough()) v.push_back(2.5);
    Dist s = chooseDist(c, 4, v), d = chooseDist(c, m, v); show(c, "source", s); show(c, "destination", d);
    A a; bool first = c.flag(); insert(a, first, first ? s : d); insert(a, !first, first ? d : s); check(c, a, s, d, 0.1, 0, false);
}
MC_FAMILY(rectangular, "1..3 items on one side and 4..6 on the other (2 by 4..6 items with 3 distances, 3 by 4 or 5 with 2), either side as the source, every assignment of the distances to all pairs", 4) {
    int n = c.range(1, 3), m = c.range(4, n == 3 ? 5 : 6); if (n == 3 && m == 5 && !c.thorough()) return;
    bool swap = c.flag(), three = n == 2 && m < (c.thorough() ? 6 : 5); std::vector<double> v{1, 2}; if (three) v.push_back(3.5);
    Dist s = chooseDist(c, n, v), d = chooseDist(c, m, v); if (swap) std::swap(s, d); show(c, "source", s); show(c, "destination", d);
    A a; bool first = c.flag(); insert(a, first, first ? s : d); insert(a, !first, first ? d : s); check(c, a, s, d, 0.1, 0, !first);
}
MC_FAMILY(exact_tolerance, "1..3 by 1..3 items, distances from {1, 1.5, 2, 2.25} (3 of them for 3 by 3), tolerance 0.25, 0.5 or 1: differences exactly equal to the tolerance", 3) {
    int n = c.range(1, 3), m = c.range(1, 3); std::vector<double> v{1, 1.5, 2}; if (n + m < 6 || c.thorough()) v.push_back(2.25); Dist s = chooseDist(c, n, v), d = chooseDist(c, m, v); double tol = c.pick({0.5, 0.25, 1.0});
    show(c, "source", s); show(c, "destination", d); DESC(c, "tolerance " << tol);
    A a; a.setTolerance((float)tol); insert(a, true, s); insert(a, false, d); check(c, a, s, d, tol, 0, c.flag());
}
MC_FAMILY(minimum, "1..3 by 1..3 items, distances from {0.5, 1, 2}, minimum distance 0, 0.7, 1, 1.5, 2 or 3", 3) {
    int n = c.range(1, 3), m = c.range(1, 3); std::vector<double> v{1, 2, 0.5}; Dist s = chooseDist(c, n, v), d = chooseDist(c, m, v); double dmin = c.pick({0.7, 0.0, 1.5, 3.0, 1.0, 2.0});
    show(c, "source", s); show(c, "destination", d); DESC(c, "minimum distance " << dmin);
    A a; a.setDistanceMin((float)dmin); insert(a, true, s); insert(a, false, d); check(c, a, s, d, 0.1, dmin, c.flag());
}
MC_FAMILY(histories, "every history of 5 (6) steps: replace the source or destination by one of 3 sets, associate in one of the two forms, change tolerance", 2) {
    auto pts = [](std::vector<double> x) { Dist d = table(x.size()); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) d[i][j] = std::fabs(x[i] - x[j]); return d; };
    static const Dist S[3] = {pts({0, 1, 3}), pts({0, 2.05}), pts({5, 1, 0.5, 0})};
    A a; Dist s, d; double tol = 0.1; int n = c.tier(5, 6);
    for (int k = 0; k < n; ++k) {
        int op = c.choose(8);
        if (op < 3) { DESC(c, "src" << op << " "); insert(a, true, S[op]); s = S[op]; }
        else if (op < 6) { DESC(c, "dst" << op - 3 << " "); insert(a, false, S[op - 3]); d = S[op - 3]; }
        else if (op == 6) { DESC(c, "associate "); check(c, a, s, d, tol, 0, k & 1); }
        else { tol = 0.72 - tol; DESC(c, "tolerance " << tol << " "); a.setTolerance((float)tol); }
    }
    check(c, a, s, d, tol, 0, false);
}
MC_FAMILY(moved, "sets of 3..5 (6) points out of 7 in the plane, turned by 4 angles and shifted, in reverse or rotated order, with 0..2 extra points on each side; thorough tier up to 7", 3) {
    static const double X[7][2] = {{0, 0}, {1.5, 0.8}, {2, 2.3}, {-1, 5}, {4, 3.1}, {1, 4.5}, {-2.2, -0.7}}; int M = c.tier(5, 6, 7);
    unsigned m = c.subset(7); int n = __builtin_popcount(m); if (n < 3 || n > M) return;
    double ang = c.pick({0.0, 1.0, 2.5, 3.14159}); int ord = c.choose(2), ex = c.choose(3);
    DESC(c, "subset " << m << " angle " << ang << " order " << ord << " extra " << ex);
    std::vector<std::array<double, 2>> s, d;
    for (int i = 0; i < 7; ++i) if (m >> i & 1) { s.push_back({X[i][0], X[i][1]}); d.push_back({cos(ang) * X[i][0] - sin(ang) * X[i][1] - 6, sin(ang) * X[i][0] + cos(ang) * X[i][1] + 2}); }
    if (ord) std::reverse(d.begin(), d.end()); else std::rotate(d.begin(), d.begin() + 1, d.end());
    for (int k = 0; k < ex; ++k) { s.push_back({3.3 + k, -4.1 * (k + 1)}); d.push_back({-7.7 - 2 * k, 5.5 + k}); }
    auto dist = [](const std::vector<std::array<double, 2>>& p) { Dist t = table(p.size()); for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) t[i][j] = std::hypot(p[i][0] - p[j][0], p[i][1] - p[j][1]); return t; };
    Dist ds = dist(s), dd = dist(d);
    for (auto& a : ds) for (double x : a) for (auto& b : dd) for (double y : b) if (std::fabs(std::fabs(x - y) - 0.05) < 1e-4) return;  // on the border of the tolerance
    A a; a.setTolerance(0.05f); insert(a, true, ds); insert(a, false, dd); check(c, a, ds, dd, 0.05, 0, false);
}
MC_FAMILY(symmetric, "regular sets with many maximum matchings: all distances equal, points of a line, a polygon, two equal groups, a star of distances; 2..6 (7) by 2..6 (7) items, the same or two different kinds", 4) {
    int M = c.tier(6, 7), n = c.range(2, M), m = c.range(2, M), ks = c.choose(5), kd = c.choose(5); DESC(c, "source kind " << ks << " of " << n << ", destination kind " << kd << " of " << m);
    auto make = [](int k, int N) { Dist d = table(N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i != j) { int a = std::min(i, j), b = std::max(i, j), g = b - a; d[i][j] = k == 0 ? 1 : k == 1 ? g : k == 2 ? std::min(g, N - g) : k == 3 ? (a % 2 == b % 2 ? 1 : 2) : a == 0 ? 2 : 1; } return d; };
    Dist s = make(ks, n), d = make(kd, m); A a; bool first = c.flag(); insert(a, first, first ? s : d); insert(a, !first, first ? d : s); check(c, a, s, d, 0.1, 0, !first);
}
MC_FAMILY(many, "2..40 source by 2..100 destination items (up to 400 pairs) whose distances are all different except none, one or two groups of 2..4 items placed first, last or spread", 3) {
    static const int Z[9][2] = {{2, 40}, {40, 2}, {8, 9}, {3, 100}, {17, 16}, {20, 20}, {9, 30}, {130, 2}, {2, 140}}; const int* z = Z[c.choose(9)]; int n = z[0], m = z[1], k = c.pick({2, 3, 4, 0}), pl = c.choose(3), two = c.choose(2);
    if (k > std::min(n, m) || (two && 2 * k > std::min(n, m)) || (n * m > 260 && two && k == 3)) return;
    DESC(c, n << "x" << m << " items, group of " << k << " placed " << pl << (two ? ", two groups" : ""));
    Dist s = table(n), d = table(m); int q = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) s[i][j] = s[j][i] = 10 + 0.5 * q++;
    q = 0; for (int i = 0; i < m; ++i) for (int j = i + 1; j < m; ++j) d[i][j] = d[j][i] = 10.25 + 0.5 * q++;
    auto at = [&](int g, int i, int N) { int x = pl == 0 ? i : pl == 1 ? N - 1 - i : i * (N - 1) / std::max(1, k - 1); if (g) x = N - 1 - (pl == 2 ? (x + N / 2 + 1) % N : x); return x; };
    for (int g = 0; g <= two; ++g) for (int i = 0; i < k; ++i) for (int j = i + 1; j < k; ++j) { int a = at(g, (i + 1) % k, m), b = at(g, (j + 1) % k, m); if (a != b) d[a][b] = d[b][a] = s[at(g, i, n)][at(g, j, n)] + 0.03; }
    A a; insert(a, true, s); insert(a, false, d); check(c, a, s, d, 0.1, 0, c.flag());
}
MC_FAMILY(two_associations, "two associations alive together: every history of 4 (5) steps on either: replace the source or destination by one of 2 sets, change the tolerance or the minimum distance, associate, copy over the other; both are associated at the end; thorough tier up to 6", 2) {
    auto pts = [](std::vector<double> x) { Dist d = table(x.size()); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < x.size(); ++j) d[i][j] = std::fabs(x[i] - x[j]); return d; };
    static const Dist S[2] = {pts({0, 1, 3}), pts({5, 1, 0.5, 0})}; struct O { A a; Dist s, d; double tol = 0.1, dmin = 0; } o[2]; int n = c.tier(4, 5, 6);
    for (int i = 0; i < 2; ++i) { insert(o[i].a, true, S[i]); o[i].s = S[i]; insert(o[i].a, false, S[1]); o[i].d = S[1]; }
    for (int k = 0; k < n; ++k) {
        int op = c.choose(16), i = op / 8; op %= 8; O& x = o[i]; DESC(c, i << ":" << op << " ");
        if (op < 2) { insert(x.a, true, S[op]); x.s = S[op]; }
        else if (op < 4) { insert(x.a, false, S[op - 2]); x.d = S[op - 2]; }
        else if (op == 4) { x.tol = i ? 0.62 : 1.3; x.a.setTolerance((float)x.tol); }
        else if (op == 5) { x.dmin = i ? 0.7 : 1.2; x.a.setDistanceMin((float)x.dmin); }
        else if (op == 6) check(c, x.a, x.s, x.d, x.tol, x.dmin, k & 1);
        else x = o[1 - i];
    }
    for (O& x : o) check(c, x.a, x.s, x.d, x.tol, x.dmin, &x == o);
}
MC_MAIN()
