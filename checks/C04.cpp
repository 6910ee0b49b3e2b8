// C04: label sets against std::set / bit masks.
// QUICK: 1
// LIBS: common
#include <iterator>
#include <vector>
#include <climits>
#include <rofl/common/label_set.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;
using rofl::LabelSet;
typedef std::set<int> S;

static S contents(const LabelSet& l) { return S(l.begin(), l.end()); }
static std::string show(const S& s) { std::string o = "{"; for (int x : s) { if (o.size() > 1) o += ", "; o += std::to_string(x); } return o + "}"; }
static void same(Ctx& c, const LabelSet& l, const S& m, const std::vector<int>& probe, const char* what) {
    c.step();
    u64 k = 5; for (int x : m) k = mc::mix(k, x);
    c.state(k);
    std::vector<int> v(l.begin(), l.end());
    REQUIRE(c, v == std::vector<int>(m.begin(), m.end()), what << ": contents " << show(contents(l)) << " expected " << show(m));
    REQUIRE(c, l.size() == m.size(), what << ": size() " << l.size() << " expected " << m.size());
    REQUIRE(c, l.empty() == m.empty(), what << ": empty() wrong");
    for (int p : probe) REQUIRE(c, l.inside(p) == (m.count(p) > 0), what << ": inside(" << p << ") wrong for " << show(m));
    std::ostringstream o; l.print(o);
    REQUIRE(c, o.str() == show(m), what << ": printed as " << o.str());
    std::ostringstream o2; o2 << l;
    REQUIRE(c, o2.str() == show(m), what << ": streamed as " << o2.str());
}
static const std::vector<std::vector<int>> UNI = {{0, 1, 2, 3, 4}, {-3, -1, 0, 7, 9}, {INT_MIN, -1, 0, 1, INT_MAX}, {10, 20, 30, 40, 50}};

MC_FAMILY(binary_operations, "all pairs of subsets of 5 labels, 4 label universes (negative and extreme labels): union, intersection, difference, equality, copy", 2) {
    auto u = UNI[c.choose(4)];
    int n = 5;
    unsigned ma = c.choose(32), mb = c.choose(32);
    S a, b;
    for (int i = 0; i < n; ++i) { if (ma >> i & 1) a.insert(u[i]); if (mb >> i & 1) b.insert(u[i]); }
    DESC(c, "A=" << show(a) << " B=" << show(b));
    std::vector<int> va(a.rbegin(), a.rend());
    va.insert(va.end(), a.begin(), a.end());  // unsorted with repetitions
    LabelSet la(va.begin(), va.end()), lb(b.begin(), b.end());
    same(c, la, a, u, "constructor from a range");
    S un(a), in, di, di2;
    un.insert(b.begin(), b.end());
    for (int x : a) { if (b.count(x)) in.insert(x); else di.insert(x); }
    for (int x : b) if (!a.count(x)) di2.insert(x);
    same(c, la.unionSet(lb), un, u, "union");
    same(c, la.intersectionSet(lb), in, u, "intersection");
    same(c, la.differenceSet(lb), di, u, "difference A-B");
    same(c, lb.differenceSet(la), di2, u, "difference B-A");
    same(c, la, a, u, "left operand afterwards");
    same(c, lb, b, u, "right operand afterwards");
    REQUIRE(c, (la == lb) == (a == b), "operator== is " << (la == lb));
    REQUIRE(c, (la != lb) == (a != b), "operator!= is " << (la != lb));
    LabelSet cp(la);
    cp.insert(u[0]); cp.remove(u[1]);
    same(c, la, a, u, "original after changing a copy");
    la = lb;
    same(c, la, b, u, "assignment");
    same(c, la.unionSet(la), b, u, "union with itself");
    same(c, la.intersectionSet(la), b, u, "intersection with itself");
    la = la;
    same(c, la, b, u, "self assignment");
    same(c, la.differenceSet(la), S(), u, "difference with itself");
    for (int x : u) {
        S p(b), q(b); p.insert(x); q.erase(x);
        same(c, lb.unionSet(x), p, u, "union with a label");
        same(c, lb.differenceSet(x), q, u, "difference with a label");
    }
    same(c, lb, b, u, "operand after label operations");
    for (auto it = lb.begin(); it != lb.end(); ++it) { S q(b); q.erase(*it); same(c, lb.differenceSet(*it), q, u, "difference with an own label"); same(c, lb.unionSet(*it), b, u, "union with an own label"); }
    LabelSet own(lb); S left(b); while (!own.empty()) { left.erase(*own.begin()); own.remove(*own.begin()); same(c, own, left, u, "own first label removed"); }
}
MC_FAMILY(histories, "all histories of insert(x)/remove(x)/clear over 4 labels, length 6 (7 thorough), checked after every operation; thorough tier up to 8", 2) {
    std::vector<int> u{-1, 0, 5, 6};
    LabelSet l; S m;
    int depth = c.tier(6, 7, 8);
    for (int k = 0; k < depth; ++k) {
        int op = c.choose(9);
        if (op < 4) {
            DESC(c, "insert(" << u[op] << ") ");
            bool was = l.insert(u[op]);
            REQUIRE(c, was == (m.count(u[op]) > 0), "insert(" << u[op] << ") returned " << was << ": it tells whether the label was already in");
            m.insert(u[op]);
        } else if (op < 8) { DESC(c, "remove(" << u[op - 4] << ") "); l.remove(u[op - 4]); m.erase(u[op - 4]); }
        else { DESC(c, "clear "); l.clear(); m.clear(); }
        same(c, l, m, u, "after the history");
        LabelSet r(m.begin(), m.end());
        REQUIRE(c, l == r && !(l != r), "a set is not equal to one with the same labels");
    }
}
MC_FAMILY(big_sets, "pairs of arithmetic progressions: start 0..3, step 1..4, length 0..30 (0..60): operations on larger sets", 2) {
    int s1 = c.choose(4), k1 = c.range(1, 4), n1 = c.range(0, c.tier(10, 25)) * 3, s2 = c.choose(4), k2 = c.range(1, 4), n2 = c.range(0, c.tier(5, 12)) * 7;
    S a, b;
    for (int i = 0; i < n1; ++i) a.insert(s1 + i * k1);
    for (int i = 0; i < n2; ++i) b.insert(s2 + i * k2);
    DESC(c, n1 << " labels from " << s1 << " step " << k1 << "; " << n2 << " from " << s2 << " step " << k2);
    LabelSet la(a.begin(), a.end()), lb(b.begin(), b.end());
    S un(a), in, di;
    un.insert(b.begin(), b.end());
    for (int x : a) { if (b.count(x)) in.insert(x); else di.insert(x); }
    std::vector<int> probe{0, 1, 5, 30, 90};
    same(c, la.unionSet(lb), un, probe, "union");
    same(c, la.intersectionSet(lb), in, probe, "intersection");
    same(c, la.differenceSet(lb), di, probe, "difference");
    REQUIRE(c, (la == lb) == (a == b) && (la != lb) == (a != b), "equality wrong");
}
// Removal and insertion at every position of larger sets, labels with special bit patterns.
MC_FAMILY(positions, "sets of 1..70 labels i*step+start (step 1, 3, 64, 1000003; start 0, -35, INT_MIN): each label removed and reinserted, absent labels removed, label operations with the label first/last/middle/absent", 2) {
    static const int steps[4] = {1, 3, 64, 1000003};
    int st = steps[c.choose(4)], s0 = std::vector<int>{0, -35, INT_MIN}[c.choose(3)], n = c.range(1, c.tier(40, 70));
    S m; std::vector<int> v;
    for (int i = 0; i < n; ++i) { v.push_back(s0 + i * st); m.insert(v.back()); }
    DESC(c, n << " labels from " << s0 << " step " << st);
    LabelSet full(v.begin(), v.end());
    std::vector<int> probe{s0, s0 + 1, s0 + n * st, 0, -1, INT_MAX};
    same(c, full, m, probe, "constructed");
    LabelSet grow;
    for (int i = 0; i < n; ++i) { int x = v[(i * 7 + 3) % n]; bool had = grow.inside(x); REQUIRE(c, grow.insert(x) == had, "insert reports presence wrongly"); }
    for (int x : v) grow.insert(x);
    REQUIRE(c, grow == full && !(grow != full), "set built by insertions differs from the range constructor");
    for (int k = 0; k < n; ++k) {
        LabelSet w(full); S r(m);
        r.erase(v[k]); w.remove(v[k]); w.remove(v[k]);
        same(c, w, r, {v[k], v[n - 1 - k]}, "removed one");
        REQUIRE(c, !(w == full) && w != full && !(full == w), "sets that differ in one label compare equal");
        same(c, full.differenceSet(v[k]), r, {v[k]}, "difference with a label");
        same(c, full.differenceSet(w), S{v[k]}, {v[k]}, "difference with all but one");
        same(c, w.differenceSet(full), S(), {v[k]}, "difference with a superset");
        same(c, w.unionSet(v[k]), m, {v[k]}, "union with the missing label");
        same(c, full.intersectionSet(w), r, {v[k]}, "intersection with a subset");
        // one label moved: same size, different content
        int other = s0 + n * st + 5;
        LabelSet x(w); REQUIRE(c, !x.insert(other), "insert of a new label reports it as present");
        REQUIRE(c, !(x == full) && x != full && x.size() == full.size(), "sets of the same size with one different label compare equal");
        REQUIRE(c, !w.insert(v[k]) && w == full, "reinserting gives a different set");
    }
    full.clear();
    same(c, full, S(), probe, "cleared");
}
MC_FAMILY(scale, "sets of 255..257, 1000, 65535..65537 and 70000 labels (ascending, descending or scattered insertion) with a second set of every second, third or 300th label or only of the borders: all operations, removal of every k-th label", 2) {
    int n = c.pick({255, 256, 257, 1000, 65535, 65536, 65537, 70000}), ord = c.choose(3), st = c.pick({2, 3, 300, 0}), off = c.pick({0, -40000});
    DESC(c, n << " labels from " << off << " order " << ord << " step " << st);
    LabelSet a, b; S ma, mb;
    for (int i = 0; i < n; ++i) { int x = ord == 0 ? i : ord == 1 ? n - 1 - i : (int)((long)i * 40507 % n); x += off; a.insert(x); ma.insert(x); c.step(); }
    if (!st) for (int i : {0, n / 2, n - 1, n + 5}) { b.insert(i + off); mb.insert(i + off); }
    else for (int i = 1; i < n + 600; i += st) { b.insert(i + off); mb.insert(i + off); }
    std::vector<int> probe{off - 1, off, off + 1, off + n / 2, off + n - 1, off + n, off + n + 599};
    S in, di, di2, un(ma); un.insert(mb.begin(), mb.end());
    for (int x : ma) (mb.count(x) ? in : di).insert(x);
    for (int x : mb) if (!ma.count(x)) di2.insert(x);
    same(c, a, ma, probe, "inserted one by one"); same(c, b, mb, probe, "second set");
    same(c, a.unionSet(b), un, probe, "union"); same(c, a.intersectionSet(b), in, probe, "intersection");
    same(c, b.unionSet(a), un, probe, "union of the second"); same(c, b.intersectionSet(a), in, probe, "intersection of the second");
    same(c, a.differenceSet(b), di, probe, "difference"); same(c, b.differenceSet(a), di2, probe, "difference of the second");
    REQUIRE(c, (a == b) == (ma == mb) && (a != b) == (ma != mb), "comparison of two different sets");
    LabelSet e(a); REQUIRE(c, e == a && !(e != a), "a copy differs");
    if (ma.count(n - 1 + off)) { e.remove(n - 1 + off); REQUIRE(c, e != a && !(e == a), "a set without its last label is equal to the whole one"); }
    for (int x : mb) { a.remove(x); ma.erase(x); }
    same(c, a, ma, probe, "after removing the labels of the second set");
}
MC_MAIN()
