// C08: peak detection against the definition.
#include <set>
#include <rofl/common/peak_finder_d.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// An output iterator in the sense used by detect (assignment), usable with either protocol.
template <typename P> struct Sink {
    std::vector<P>* v;
    Sink& operator=(const P& p) { v->push_back(p); return *this; }
    Sink& operator*() { return *this; }
    Sink& operator++() { return *this; }
    Sink operator++(int) { return *this; }
};

template <size_t D, typename V, typename I, typename Cmp> struct PF {
    typedef rofl::PeakFinderD<D, V, I, Cmp> F;
    typedef std::array<I, D> P;
    static std::string show(const P& r) { std::ostringstream o; for (size_t d = 0; d < D; ++d) o << (d ? "," : "(") << (long)r[d]; return o.str() + ")"; }
    P mn, dm, win;
    std::vector<P> cells;
    std::vector<V> val;
    Cmp cmp;
    void setup() {
        cells.clear();
        P cur; cur.fill(0);
        while (true) {
            P p; for (size_t d = 0; d < D; ++d) p[d] = mn[d] + cur[d];
            cells.push_back(p);
            size_t d = 0;
            while (d < D && ++cur[d] == dm[d]) cur[d++] = 0;
            if (d == D) break;
        }
        val.assign(cells.size(), V(0));
    }
    int pos(const P& p) const { int r = 0; for (int d = D - 1; d >= 0; --d) { if (p[d] < mn[d] || p[d] >= mn[d] + dm[d]) return -1; r = r * dm[d] + (p[d] - mn[d]); } return r; }
    void check(Ctx& c, int how, bool filter, V vmin) {
        F f;
        configure(f, how);
        f.setPeakWindow(win);
        f.enableFilterPeakMin(filter, vmin);
        run(c, f, how, filter, vmin);
    }
    void configure(F& f, int how) const {
        if (how == 0) { P mx; for (size_t d = 0; d < D; ++d) mx[d] = mn[d] + dm[d] - 1; f.setDomain(mn, mx); }
        else if (how == 1) f.setDomain(dm);                       // requires mn = 0
        else { P ce, h; for (size_t d = 0; d < D; ++d) { h[d] = dm[d] / 2; ce[d] = mn[d] + h[d]; } f.setDomainCentered(ce, h); }  // requires odd sizes
    }
    void run(Ctx& c, const F& f, int how, bool filter, V vmin) {
        if (c.describing) { DESC(c, "dims " << show(dm) << " min " << show(mn) << " window " << show(win) << " filter " << filter << "/" << vmin << " values"); for (auto v : val) DESC(c, " " << v); }
        int outside = 0;
        auto map = [&](const P& p) -> V { int k = pos(p); if (k < 0) { ++outside; return V(0); } return val[k]; };
        std::vector<P> out;
        f.detect(map, Sink<P>{&out});
        c.step();
        REQUIRE(c, outside == 0, "the map was read outside the domain");
        u64 h = mc::mix(how * 2 + filter, (u64)(long)(vmin * 4)); for (auto v : val) h = mc::mix(h, (u64)(long)(v * 4) + 99); for (size_t d = 0; d < D; ++d) h = mc::mix(mc::mix(h, dm[d]), win[d]);
        c.state(h);
        std::set<P> got(out.begin(), out.end());
        REQUIRE(c, got.size() == out.size(), "a peak is reported twice");
        for (size_t i = 0; i < cells.size(); ++i) {
            bool peak = !filter || cmp(val[i], vmin);
            for (size_t j = 0; j < cells.size() && peak; ++j) {
                if (i == j) continue;
                bool near = true;
                for (size_t d = 0; d < D && near; ++d) near = std::labs((long)cells[i][d] - (long)cells[j][d]) <= (long)win[d];
                if (near && !cmp(val[i], val[j])) peak = false;
            }
            REQUIRE(c, peak == (got.count(cells[i]) > 0), (peak ? "missed peak " : "false peak ") << show(cells[i]) << " value " << val[i]);
            got.erase(cells[i]);
        }
        REQUIRE(c, got.empty(), "a peak outside the domain is reported");
        for (size_t k = 1; k < out.size(); ++k) REQUIRE(c, !cmp(val[pos(out[k])], val[pos(out[k - 1])]), "peaks are not sorted best first");
    }
};
typedef std::greater<int> GI;
typedef std::less<int> LI;

MC_FAMILY(line_max, "1D, 1..6 cells (7), every assignment of 4 values, window 0..3, 3 thresholds, maxima; thorough tier up to 8", 3) {
    PF<1, int, int, GI> t;
    int n = c.range(1, c.tier(6, 7, 8));
    t.mn = {0}; t.dm = {n}; t.setup();
    t.win = {c.choose(4)};
    int f = c.choose(4);
    for (auto& v : t.val) v = c.choose(4);
    t.check(c, 1, f > 0, f);
}
MC_FAMILY(line_min, "1D, 1..6 cells, every assignment of 3 values, offset domain, window 0..3, minima", 3) {
    PF<1, int, long, LI> t;
    int n = c.range(1, 6);
    t.mn = {-3}; t.dm = {n}; t.setup();
    t.win = {c.choose(4)};
    int f = c.choose(2);
    for (auto& v : t.val) v = c.choose(3) - 1;
    t.check(c, 0, f > 0, 1);
}
template <typename Cmp> static void plane(Ctx& c, int w, int h, int vals, int wmax, int mode) {
    PF<2, int, int, Cmp> t;
    t.dm = {w, h};
    if (mode == 1) t.mn = {0, 0}; else t.mn = {-2, 5};
    t.setup();
    t.win = {c.choose(wmax + 1), c.choose(wmax + 1)};
    int f = c.choose(2);
    for (auto& v : t.val) v = c.choose(vals);
    t.check(c, mode, f > 0, 0);
}
MC_FAMILY(plane_2x3, "2D 2x3 and 3x2 and 1x4 and 4x1, every assignment of 4 values, windows 0..2 per axis", 3) {
    static const int S[4][2] = {{2, 3}, {3, 2}, {1, 4}, {4, 1}};
    int s = c.choose(4);
    plane<GI>(c, S[s][0], S[s][1], c.tier(3, 4), 2, 1);
}
MC_FAMILY(plane_3x3, "2D 3x3, every assignment of 3 values, windows 0..2 per axis, centred domain", 3) { plane<GI>(c, 3, 3, 3, c.tier(1, 2), 2); }
MC_FAMILY(plane_4x3, "2D 4x3, every assignment of 2 values (3 thorough), windows 0..1, offset domain, minima", 3) { plane<LI>(c, 4, 3, c.tier(2, 3), 1, 0); }
MC_FAMILY(plane_4x4, "2D 4x4, every assignment of 2 values, windows 0..1 (0..2 thorough)", 3) { plane<GI>(c, 4, 4, 2, c.tier(1, 2), 0); }

MC_FAMILY(cube, "3D 2x2x2 with 3 values and 3x2x2, 2x3x2, 2x2x3 with 2 values (all assignments), windows 0..1 per axis", 4) {
    int s = c.choose(4);
    PF<3, double, int, std::greater<double>> t;
    t.mn = {-1, 0, 4}; t.dm = {2, 2, 2};
    if (s) t.dm[s - 1] = 3;
    t.setup();
    if (s == 0) { int w = c.choose(8); t.win = {w & 1, w >> 1 & 1, w >> 2 & 1}; }
    else { int w = c.choose(4); t.win = {w == 0 || w == 3, w == 1 || w == 3, w == 2 || w == 3}; }
    for (auto& v : t.val) v = c.choose(s ? 2 : 3) - 0.5;
    t.check(c, 0, false, 0);
}
MC_FAMILY(hyper, "4D 2x2x2x2, every binary assignment, windows all 0 or all 1; maxima", 4) {
    PF<4, int, int, GI> t;
    t.mn.fill(0); t.dm.fill(2); t.setup();
    int w = c.choose(2); t.win.fill(w);
    for (auto& v : t.val) v = c.choose(2);
    t.check(c, 1, false, 0);
}
// Larger maps: a ground pattern plus two bumps anywhere.
static int ground(int kind, int x, int y, int z) {
    switch (kind) {
        case 0: return 0;
        case 1: return x + y + z;
        case 2: return -(x + y + z);
        case 3: return (x * 7 + y * 5 + z * 3) % 11;
        case 4: return x - y;
        case 5: return (x + y) % 2;
        case 6: return (x * x + 3 * y * y + x * y * z) % 13;
        case 7: return -((x - 2) * (x - 2) + (y - 2) * (y - 2) + (z - 1) * (z - 1));
        default: return (int)((unsigned)((x + 9 * y + 83 * z) * 2654435761u) >> 27);
    }
}
MC_FAMILY(bumps2, "2D 6x5 (8x7 thorough): 9 ground patterns, two bumps of height {10,10},{10,12},{3,12} at all pairs of cells, 5 windows", 3) {
    PF<2, int, int, GI> t;
    t.dm = {c.tier(6, 8), c.tier(5, 7)}; t.mn = {0, 0}; t.setup();
    static const int W[5][2] = {{1, 1}, {2, 1}, {0, 2}, {3, 3}, {1, 4}};
    int w = c.choose(5); t.win = {W[w][0], W[w][1]};
    int g = c.choose(9), hk = c.choose(3);
    for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = ground(g, t.cells[i][0], t.cells[i][1], 0);
    int a = c.choose(t.cells.size()), b = c.choose(t.cells.size());
    t.val[a] += hk == 2 ? 3 : 10; t.val[b] += hk ? 12 : 10;
    t.check(c, 0, false, 0);
}
MC_FAMILY(bumps3, "3D 3x3x3 and 4x3x5: 9 ground patterns, two bumps at all pairs of cells (first bump restricted to every third cell on the large box in the quick tier), windows (1,1,1), (1,0,2)", 3) {
    PF<3, int, int, GI> t;
    bool big = c.flag();
    if (big) { t.dm = {4, 3, 5}; t.mn = {-2, 1, 0}; } else { t.dm = {3, 3, 3}; t.mn = {0, 0, 0}; }
    t.setup();
    if (c.flag()) t.win = {1, 0, 2}; else t.win = {1, 1, 1};
    int g = c.choose(9);
    for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = ground(g, t.cells[i][0], t.cells[i][1], t.cells[i][2]);
    int st = big ? c.tier(3, 1) : 1;
    int a = c.choose(t.cells.size() / st) * st, b = c.choose(t.cells.size());
    t.val[a] += 10; t.val[b] += 12;
    t.check(c, 0, true, 2);
}
MC_FAMILY(patterns, "2D w x h up to 12x12 (20x20), 9 ground patterns, windows 0..3 square, maxima with and without threshold; thorough tier up to 28/28", 2) {
    PF<2, int, int, GI> t;
    int w = c.range(1, c.tier(12, 20, 28)), h = c.range(1, c.tier(12, 20, 28));
    t.dm = {w, h}; t.mn = {-1, 3}; t.setup();
    int g = c.choose(9), k = c.choose(4), f = c.choose(2);
    t.win = {k, k};
    for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = ground(g, t.cells[i][0] + 1, t.cells[i][1] - 3, 1);
    t.check(c, 0, f, 4);
}
MC_FAMILY(long_lines, "1D lines of 1..48 (96) cells and planes of two such lines, 9 ground patterns with and without a bump, windows 0..12 along the line, maxima; thorough tier up to 160", 2) {
    int n = c.range(1, c.tier(48, 96, 160)), g = c.choose(9), w = c.range(0, 12), b = c.choose(4);
    auto put = [&](auto& t) { for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = ground(g, t.cells[i][0] + 4, 1 + (int)i / n, 2) + ((int)i == b * n / 4 && b ? 10 : 0); };
    { PF<1, int, int, GI> t; t.dm = {n}; t.mn = {-4}; t.win = {w}; t.setup(); put(t); t.check(c, 0, b & 1, 3); }
    if (n <= 30) { PF<2, int, int, GI> t; t.dm = {n, 2}; t.mn = {-4, 1}; t.win = {w, b % 2}; t.setup(); put(t); t.check(c, 0, b & 1, 3); }
    if (n <= 30) { PF<2, int, int, GI> t; t.dm = {2, n}; t.mn = {0, 0}; t.win = {b % 2, w}; t.setup(); put(t); t.check(c, 1, b & 1, 3); }
}
static double frac(int g, int i) { return (ground(g, i, 1, 2) % 3) + 0.25 * (i % 3) - 0.001 * (i % 2); }
MC_FAMILY(fractions, "double and float values that differ by less than one (maxima and minima), negative thresholds, 1D and 2D, windows 0..3", 2) {
    int n = c.range(1, c.tier(16, 30)), g = c.choose(9), w = c.choose(4); bool mn = c.flag(), f = c.flag();
    double off = c.pick({0.0, -5.0, 0.3});
    if (mn) { PF<1, double, int, std::less<double>> t; t.dm = {n}; t.mn = {2}; t.win = {w}; t.setup(); for (int i = 0; i < n; ++i) t.val[i] = frac(g, i) + off; t.check(c, 0, f, off + 0.8); }
    else { PF<2, float, long, std::greater<float>> t; t.dm = {n, 3}; t.mn = {2, -1}; t.win = {w, 1}; t.setup(); for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = (float)(frac(g, i) + off); t.check(c, 0, f, (float)(off + 0.8)); }
}
MC_FAMILY(reconfigured, "one detector: every sequence of 5 (6 thorough) of: domain 5x3, 3x4 or a shifted 3x3 in its three forms, windows (1,1) (0,2) (2,0), filter on at 2 or 4, off at 2 or 4; a detection after each", 3) {
    PF<2, int, int, GI> t;
    PF<2, int, int, GI>::F f;
    t.dm = {5, 3}; t.mn = {0, 0}; t.win = {0, 0};
    int how = 1; bool filter = false; int vmin = 0;
    t.configure(f, how);
    for (int k = 0, len = c.tier(5, 6); k < len; ++k) {
        int op = c.choose(10);
        DESC(c, " op" << op << " ");
        if (op < 3) {
            how = op;
            if (op == 0) { t.dm = {3, 4}; t.mn = {-1, 2}; } else if (op == 1) { t.dm = {5, 3}; t.mn = {0, 0}; } else { t.dm = {3, 3}; t.mn = {4, -3}; }
            t.configure(f, how);
        } else if (op < 6) { static const int W[3][2] = {{1, 1}, {0, 2}, {2, 0}}; t.win = {W[op - 3][0], W[op - 3][1]}; f.setPeakWindow(t.win); }
        else { filter = op < 8; vmin = op % 2 ? 4 : 2; f.enableFilterPeakMin(filter, vmin); }
        t.setup();
        for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = (int)((i * 7 + (i * i) % 5 + k) % 9);
        t.run(c, f, how, filter, vmin);
    }
}
// A comparator with a state of its own, given to the constructor.
struct Dir { int s; explicit Dir(int s_ = 1) : s(s_) {} bool operator()(int a, int b) const { return s * a > s * b; } };
MC_FAMILY(given_comparator, "a detector constructed with a comparator that has a state (maxima or minima), default window and filter or set ones, 1D 1..7 cells, every assignment of 3 values", 3) {
    PF<1, int, int, Dir> t;
    int n = c.range(1, c.tier(7, 8)), s = c.pick({1, -1}), w = c.choose(3); bool f = c.flag();
    t.cmp = Dir(s); t.mn = {0}; t.dm = {n}; t.win = {w}; t.setup();
    for (auto& v : t.val) v = c.choose(3) - 1;
    PF<1, int, int, Dir>::F d(t.cmp);
    t.configure(d, 1);
    if (w) d.setPeakWindow(t.win);
    if (f) d.enableFilterPeakMin(true, 0);
    t.run(c, d, 1, f, 0);
}
MC_FAMILY(defaults, "a detector on which nothing but the domain is set (every cell is a peak) and one on which nothing but the window is set; memory of the detector preset to 0, 1, 255", 2) {
    typedef PF<2, int, int, GI> T;
    int fill = c.pick({0, 1, 255}), w = c.range(1, 4), h = c.range(1, 4), g = c.choose(9), k = c.choose(3);
    T t; t.mn = {0, 0}; t.dm = {w, h}; t.win = {k, k}; t.setup();
    for (size_t i = 0; i < t.cells.size(); ++i) t.val[i] = ground(g, t.cells[i][0], t.cells[i][1], 1) - 3;
    alignas(T::F) static unsigned char mem[sizeof(T::F)];
    memset(mem, fill, sizeof mem);
    T::F* f = new (mem) T::F();
    t.configure(*f, 1);
    if (k) f->setPeakWindow(t.win);
    t.run(c, *f, 1, false, 0);
    f->~PeakFinderD();
}
// Domains with more cells than 8 and 16 bits count: the neighbours of a cell are looked up by position.
template <size_t D> static void scale(Ctx& c, std::array<int, D> dm, std::array<int, D> mn, std::array<int, D> win, int kind) {
    typedef PF<D, int, int, GI> T;
    T t; t.dm = dm; t.mn = mn; t.win = win; t.setup();
    size_t n = t.cells.size();
    DESC(c, "dims " << T::show(dm) << " min " << T::show(mn) << " window " << T::show(win) << " values " << kind);
    for (size_t i = 0; i < n; ++i) t.val[i] = kind == 0 ? (int)((i * 40503ull) % 65521) : kind == 1 ? (int)(i % 257) : kind == 2 ? (int)(((unsigned)(i * 2654435761u)) >> 16) : (int)(n - i);
    typename T::F f; t.configure(f, 0); f.setPeakWindow(win);
    int outside = 0;
    std::vector<typename T::P> out;
    f.detect([&](const typename T::P& p) -> int { int k = t.pos(p); if (k < 0) { ++outside; return 0; } return t.val[k]; }, Sink<typename T::P>{&out});
    c.step(n);
    REQUIRE(c, outside == 0, "the map was read outside the domain");
    std::vector<char> got(n, 0);
    for (size_t k = 0; k < out.size(); ++k) {
        int p = t.pos(out[k]);
        REQUIRE(c, p >= 0, "a peak outside the domain is reported");
        REQUIRE(c, !got[p], "a peak is reported twice");
        got[p] = 1;
        REQUIRE(c, !k || !(t.val[p] > t.val[t.pos(out[k - 1])]), "peaks are not sorted best first");
    }
    for (size_t i = 0; i < n; ++i) {
        bool peak = true;
        typename T::P o; for (size_t d = 0; d < D; ++d) o[d] = -win[d];
        while (peak) {
            typename T::P q; bool self = true;
            for (size_t d = 0; d < D; ++d) { q[d] = t.cells[i][d] + o[d]; self = self && o[d] == 0; }
            int k = t.pos(q);
            if (!self && k >= 0 && !(t.val[i] > t.val[k])) peak = false;
            size_t d = 0;
            while (d < D && ++o[d] > win[d]) { o[d] = -win[d]; ++d; }
            if (d == D) break;
        }
        REQUIRE(c, peak == (got[i] != 0), (peak ? "missed peak " : "false peak ") << T::show(t.cells[i]) << " value " << t.val[i]);
    }
    c.state(mc::mix(mc::mix(n, kind), mc::mix(D, win[0])));
}
MC_FAMILY(scale_lines, "1D domains of 255..258, 300, 1000, 65535..65538 and 70000 cells, 4 value patterns, windows 0, 1, 3, 130 and 300", 2) {
    int n = c.pick({255, 256, 257, 258, 300, 1000, 65535, 65536, 65537, 65538, 70000}), w = c.pick({0, 1, 3, 130, 300}), k = c.choose(4), m = c.pick({0, -20, 32760});
    scale<1>(c, {n}, {m}, {w}, k);
}
MC_FAMILY(scale_planes, "2D and 3D domains with more than 256 and than 65536 cells (300x3, 3x300, 257x257, 300x220, 20x20x20, 41x40x41), 4 value patterns, windows (1,1) and (2,3)", 2) {
    int s = c.choose(6), k = c.choose(4); bool w = c.flag();
    static const int S[4][2] = {{300, 3}, {3, 300}, {257, 257}, {300, 220}};
    if (s < 4) scale<2>(c, {S[s][0], S[s][1]}, {-5, 9}, {w ? 2 : 1, w ? 3 : 1}, k);
    else scale<3>(c, {s == 4 ? 20 : 41, s == 4 ? 20 : 40, s == 4 ? 20 : 41}, {0, -7, 3}, {w ? 2 : 1, 1, w ? 0 : 1}, k);
}
MC_FAMILY(two_finders, "two detectors alive together: every sequence of 4 (5) of: domain 5x3, 3x4 or a shifted 3x3, windows (1,1) (0,2), filter on at 4 or off, copy over the other; both detect after each", 2) {
    typedef PF<2, int, int, GI> S; S t[2]; S::F f[2]; int how[2] = {1, 1}, vmin[2] = {0, 0}; bool filter[2] = {false, false};
    for (int i = 0; i < 2; ++i) { t[i].dm = {5 - i, 3}; t[i].mn = {0, 0}; t[i].win = {0, 0}; t[i].configure(f[i], 1); }
    for (int k = 0, len = c.tier(4, 5); k < len; ++k) {
        int op = c.choose(16), i = op / 8; op %= 8; DESC(c, " " << i << ":op" << op << " ");
        if (op < 3) { how[i] = op; if (op == 0) { t[i].dm = {3, 4}; t[i].mn = {-1, 2}; } else if (op == 1) { t[i].dm = {5, 3}; t[i].mn = {0, 0}; } else { t[i].dm = {3, 3}; t[i].mn = {4, -3}; } t[i].configure(f[i], op); }
        else if (op < 5) { if (op == 3) t[i].win = {1, 1}; else t[i].win = {0, 2}; f[i].setPeakWindow(t[i].win); }
        else if (op < 7) { filter[i] = op == 5; vmin[i] = 4; f[i].enableFilterPeakMin(filter[i], 4); }
        else { int o = 1 - i; t[i] = t[o]; f[i] = f[o]; how[i] = how[o]; filter[i] = filter[o]; vmin[i] = vmin[o]; }
        for (int j = 0; j < 2; ++j) { t[j].setup(); for (size_t q = 0; q < t[j].cells.size(); ++q) t[j].val[q] = (int)((q * 7 + (q * q) % 5 + k + j) % 9); t[j].run(c, f[j], how[j], filter[j], vmin[j]); }
    }
}
MC_FAMILY(hyper5, "5D 2x1x3x2x1 (2x2x2x2x1 thorough), every binary assignment, window 0 or 1 per axis alike or 1 in one axis; maxima", 4) {
    PF<5, int, int, GI> t; t.mn = {0, -1, 0, 2, 0}; if (c.thorough()) t.dm = {2, 2, 2, 2, 1}; else t.dm = {2, 1, 3, 2, 1}; t.setup(); int w = c.choose(7); t.win.fill(w == 1); if (w > 1) t.win[w - 2] = 1;
    for (auto& v : t.val) v = c.choose(2); t.check(c, 0, false, 0);
}
MC_FAMILY(bumps6, "6D 3x2x1x2x3x2: a pattern plus two bumps anywhere, windows 0..2 alike or in one axis, filtered or not", 2) {
    PF<6, int, int, GI> t; t.mn.fill(0); t.dm = {3, 2, 1, 2, 3, 2}; t.setup(); int w = c.choose(9); t.win.fill(w < 3 ? w : 0); if (w >= 3) t.win[w - 3] = 2; bool f = c.flag(); int k = c.choose(2);
    for (size_t i = 0; i < t.val.size(); ++i) t.val[i] = k ? (int)(i * 5 % 7) : 0; t.val[c.choose(t.val.size())] += 9; t.val[c.choose(t.val.size())] += 8; t.check(c, 1, f, 5);
}
MC_MAIN()
