// C12: Morton tree: retention, order, lookup and box search.
// LIBS: common
#include <rofl/common/morton_tree.h>
#include <set>
#include "mc.h"
using mc::Ctx;
using mc::u64;

static const int SIGN = 1 << 20, SAME = -(1 << 20);
template <typename T> static int level(T a, T b) {  // weight of the first differing bit
    if (a == b) return SAME;
    if ((a < 0) != (b < 0)) return SIGN;
    int k;
    for (k = 70; k > -70; --k) if (std::floor(std::ldexp((long double)a, -k)) != std::floor(std::ldexp((long double)b, -k))) break;
    return k;
}
template <typename T, size_t D> static bool before(const T* a, const T* b) {
    int bl = SAME, best = 0;
    for (size_t d = 0; d < D; ++d) { int l = level(a[d], b[d]); if (l > bl) { bl = l; best = d; } }
    return a[best] < b[best];
}
template <typename T, size_t D> struct Sys {
    typedef rofl::MortonTree<T, D> Tree;
    typedef typename Tree::Item Item;
    Tree t;
    std::vector<Item> model;
    static std::string show(const Item& i) { std::ostringstream o; o << "("; for (size_t d = 0; d < D; ++d) o << (d ? "," : "") << i.values[d]; o << ")#" << i.id; return o.str(); }
    static Item mk(const std::array<T, D>& v, int id) { Item i; for (size_t d = 0; d < D; ++d) i.values[d] = v[d]; i.id = id; return i; }
    static bool eqv(const Item& a, const Item& b) { return std::equal(a.values, a.values + D, b.values); }
    u64 hash() const { u64 h = 3; for (auto it = t.begin(); it != t.end(); ++it) { h = mc::mix(h, it->id); for (size_t d = 0; d < D; ++d) h = mc::mix(h, (u64)(long)(it->values[d] * 8)); } return h; }

    void retained(Ctx& c) {
        c.step();
        REQUIRE(c, t.size() == model.size() && t.getItems().size() == model.size() && (size_t)std::distance(t.begin(), t.end()) == model.size(), "size() = " << t.size() << " after " << model.size() << " insertions");
        std::vector<char> used(model.size(), 0);
        for (auto it = t.begin(); it != t.end(); ++it) {
            bool ok = false;
            for (size_t k = 0; k < model.size() && !ok; ++k) if (!used[k] && model[k].id == it->id && eqv(model[k], *it)) { used[k] = 1; ok = true; }
            REQUIRE(c, ok, "item " << show(*it) << " was not inserted like this");
        }
        c.state(hash());
    }
    void sorted(Ctx& c) {
        for (auto it = t.begin(); it != t.end() && it + 1 != t.end(); ++it)
            REQUIRE(c, !(before<T, D>((it + 1)->values, it->values)), "not in Morton order: " << show(*it) << " then " << show(*(it + 1)));
    }
    void lookups(Ctx& c, const std::vector<Item>& qs) {
        for (auto& q : qs) {
            c.step();
            auto it = t.findItem(q);
            sorted(c);
            for (auto k = t.begin(); k != t.end(); ++k) {
                bool b = before<T, D>(k->values, q.values);
                REQUIRE(c, b == (k < it), "findItem" << show(q) << ": item " << show(*k) << (b ? " precedes the query but is after the position" : " does not precede the query but is before the position"));
            }
        }
        retained(c);
    }
    void box(Ctx& c, const Item& lo, const Item& hi, const std::vector<typename Tree::ConstIterator>& got, const char* what) {
        std::vector<Item> g;
        for (auto it : got) { REQUIRE(c, it >= t.begin() && it < t.end(), what << " returned a position outside the tree"); g.push_back(*it); }
        size_t n = 0;
        for (auto& m : model) {
            bool in = true;
            for (size_t d = 0; d < D; ++d) in = in && m.values[d] >= lo.values[d] && m.values[d] <= hi.values[d];
            size_t times = 0, want = 0;
            for (auto& x : g) times += x.id == m.id && eqv(x, m);
            for (auto& x : model) want += x.id == m.id && eqv(x, m);
            REQUIRE(c, times == (in ? want : 0), what << " [" << show(lo) << "," << show(hi) << "]: item " << show(m) << " returned " << times << " times");
            n += in;
        }
        REQUIRE(c, g.size() == n, what << " returned " << g.size() << " items, expected " << n);
    }
    void search(Ctx& c, const Item& lo, const Item& hi) {
        c.step();
        std::vector<typename Tree::ConstIterator> got;
        t.searchInBox(lo, hi, got);
        box(c, lo, hi, got, "searchInBox");
    }
    void searchAround(Ctx& c, const Item& ce, T r) {
        c.step();
        std::vector<typename Tree::ConstIterator> got;
        t.searchInBox(ce, r, got);
        Item lo = ce, hi = ce;
        for (size_t d = 0; d < D; ++d) {  // limited to the range of the type
            typedef std::numeric_limits<T> L;
            if (std::is_integral<T>::value) {
                __int128 l = (__int128)ce.values[d] - (__int128)r, h = (__int128)ce.values[d] + (__int128)r;
                lo.values[d] = l < (__int128)L::lowest() ? L::lowest() : (T)l; hi.values[d] = h > (__int128)L::max() ? L::max() : (T)h;
            } else { lo.values[d] -= r; hi.values[d] += r; }
        }
        box(c, lo, hi, got, "searchInBox around a centre");
    }
    void levels(Ctx& c) {
        t.sort();
        for (auto a = t.begin(); a != t.end(); ++a) for (auto b = a + 1; b <= t.end(); ++b) {
            c.step();
            int w = rofl::MortonTraits<T, D>::distance(a->values, (b - 1)->values);
            REQUIRE(c, t.computeLevel(a, b) == w, "computeLevel from " << show(*a) << " to " << show(*(b - 1)) << " is " << t.computeLevel(a, b) << " expected " << w);
        }
    }
    void add(Ctx& c, const std::array<T, D>& v, int id, bool reset) {
        Item i = mk(v, id);
        DESC(c, "insert" << show(i) << (reset ? " renumbered; " : " keeping its id; "));
        if (reset && id % 2) t.insert(i); else t.insert(i, reset);
        if (reset) i.id = model.size();
        model.push_back(i);
    }
};
template <typename T, size_t D> static std::array<T, D> coords(int k, const std::vector<T>& v) { std::array<T, D> a; for (size_t d = 0; d < D; ++d) { a[d] = v[k % v.size()]; k /= v.size(); } return a; }
template <typename T, size_t D> static std::vector<typename Sys<T, D>::Item> grid(const std::vector<T>& v) {
    std::vector<typename Sys<T, D>::Item> q; int n = 1; for (size_t d = 0; d < D; ++d) n *= v.size();
    for (int k = 0; k < n; ++k) q.push_back(Sys<T, D>::mk(coords<T, D>(k, v), -7));
    return q;
}
// Every multiset of up to n points over the coordinate values, every query point and box.
template <typename T, size_t D> static void points(Ctx& c, const std::vector<T>& v, const std::vector<T>& qv, int n) {
    Sys<T, D> s;
    int cells = 1; for (size_t d = 0; d < D; ++d) cells *= v.size();
    int m = c.range(0, n), last = 0;
    for (int i = 0; i < m; ++i) { last += c.choose(cells - last); s.add(c, coords<T, D>(last, v), 100 + i, i % 2 == 0); }
    s.retained(c);
    auto q = grid<T, D>(qv);
    s.lookups(c, q);
    for (auto& lo : q) for (auto& hi : q) {
        bool ok = true; for (size_t d = 0; d < D; ++d) ok = ok && lo.values[d] <= hi.values[d];
        if (ok) s.search(c, lo, hi);
    }
    if (m) s.levels(c);
    s.retained(c);
}
MC_FAMILY(points2i, "2D int: every multiset of up to 3 (4) points over {-2,-1,0,1,3}, all query points and boxes over {-3..4}", 3) { points<int, 2>(c, {-2, -1, 0, 1, 3}, {-3, -1, 0, 1, 4}, c.tier(3, 4)); }
MC_FAMILY(points2d, "2D double: every multiset of up to 2 (3) points over {-1.5,-1,-0.25,0,0.5,2}, all query points and boxes", 3) { points<double, 2>(c, {-1.5, -1, -0.25, 0, 0.5, 2}, {-2, -1, -0.3, 0, 0.5, 3}, c.tier(2, 3)); }
MC_FAMILY(points2f, "2D float: every multiset of up to 2 points over {-3,-0.5,0,1,1.25}", 3) { points<float, 2>(c, {-3, -0.5f, 0, 1, 1.25f}, {-3, -0.75f, 0, 1, 2}, c.tier(2, 3)); }
MC_FAMILY(points3i, "3D int: every multiset of up to 2 points over {-1,0,2}, all boxes over the same", 3) { points<int, 3>(c, {-1, 0, 2}, {-1, 0, 2}, 2); }
MC_FAMILY(points3d, "3D double: every multiset of up to 2 points over {-0.5,0.75,1}", 3) { points<double, 3>(c, {-0.5, 0.75, 1}, {-0.5, 0.75, 1}, 2); }
MC_FAMILY(points1l, "1D long: every multiset of up to 4 points over far apart values", 2) { points<long, 1>(c, {-5000000000l, -1, 0, 1, 7, 4000000000l}, {-5000000000l, -2, -1, 0, 3, 7, 4000000000l, 5000000000l}, 4); }

struct Src { int a, b, k; };
// Interleavings of insertions and queries.
MC_FAMILY(histories, "every history of length 5 (6): insert one of 4 points (with or without renumbering), a range of 2 points or of 2 converted objects (with or without renumbering), an empty range, lookup, box search, sort", 2) {
    Sys<int, 2> s;
    static const std::array<int, 2> P[4] = {{0, 0}, {3, -1}, {-2, 2}, {1, 2}};
    int depth = c.tier(5, 6);
    for (int k = 0; k < depth; ++k) {
        int op = c.choose(15);
        if (op < 8) s.add(c, P[op / 2], 50 + k, op % 2);
        else if (op == 8) { DESC(c, "findItem; "); s.lookups(c, {Sys<int, 2>::mk({1, 0}, 0), Sys<int, 2>::mk({-2, 2}, 0)}); }
        else if (op == 9) { DESC(c, "searchInBox; "); s.search(c, Sys<int, 2>::mk({-2, -1}, 0), Sys<int, 2>::mk({1, 2}, 0)); s.searchAround(c, Sys<int, 2>::mk({0, 0}, 0), 2); }
        else if (op == 10) { DESC(c, "sort; "); s.t.sort(); s.sorted(c); }
        else {
            bool reset = op & 1; int z = k == 2 ? 0 : 2; DESC(c, "insert a range of " << z << (op < 13 ? " items" : " objects") << (reset ? ", renumbered; " : "; "));
            Src o[2] = {{4 - k, -3 + k, 900 + k}, {-1, k, 800 + k}};
            if (op < 13) { std::vector<Sys<int, 2>::Item> v; for (int i = 0; i < z; ++i) v.push_back(Sys<int, 2>::mk({o[i].a, o[i].b}, o[i].k)); s.t.insert(v.begin(), v.end(), reset); }
            else { auto conv = [](const Src& x) { return Sys<int, 2>::mk({x.a, x.b}, x.k); }; s.t.insert(o, o + z, conv, reset); }
            for (int i = 0; i < z; ++i) s.model.push_back(Sys<int, 2>::mk({o[i].a, o[i].b}, reset ? (int)s.model.size() : o[i].k));
        }
        s.retained(c);
    }
    s.search(c, Sys<int, 2>::mk({-5, -5}, 0), Sys<int, 2>::mk({5, 5}, 0));
    typename Sys<int, 2>::Tree copy(s.t);
    copy.insert(Sys<int, 2>::mk({9, 9}, 1));
    REQUIRE(c, copy.size() == s.model.size() + 1, "copy misses an item");
    s.retained(c);
}
MC_FAMILY(bulk_insert, "0..2 items then 0..4 items inserted from a range (items or converted objects), renumbered or not, then one more", 2) {
    typedef Sys<int, 2> S;
    S s;
    for (int i = c.choose(3); i > 0; --i) s.add(c, {i, -i}, 70 + i, true);
    int n = c.choose(5), how = c.choose(2), reset = c.choose(2);
    DESC(c, n << " items from a range, how " << how << " renumber " << reset);
    if (how == 0) {
        std::vector<S::Item> v;
        for (int i = 0; i < n; ++i) v.push_back(S::mk({i * 3 - 4, i * i}, 900 - i));
        std::vector<S::Item> src = v;
        if (reset && n % 2) s.t.insert(v.begin(), v.end()); else s.t.insert(v.begin(), v.end(), (bool)reset);
        for (int i = 0; i < n; ++i) { S::Item x = src[i]; if (reset) x.id = s.model.size(); s.model.push_back(x); }
    } else {
        std::vector<Src> v;
        for (int i = 0; i < n; ++i) v.push_back({i * 3 - 4, i * i, 900 - i});
        auto conv = [](const Src& x) { return S::mk({x.a, x.b}, x.k); };
        if (reset && n % 2) s.t.insert(v.begin(), v.end(), conv); else s.t.insert(v.begin(), v.end(), conv, (bool)reset);
        for (int i = 0; i < n; ++i) s.model.push_back(S::mk({i * 3 - 4, i * i}, reset ? (int)s.model.size() : 900 - i));
    }
    s.retained(c);
    s.add(c, {1, 1}, 5, c.flag());
    s.retained(c);
    s.lookups(c, grid<int, 2>({-4, 0, 1, 5}));
    s.search(c, S::mk({-4, -2}, 0), S::mk({2, 4}, 0));
}
// Copies made while the tree is in order or not, used independently of it.
MC_FAMILY(copies, "0..4 items (3 points), sorted or not at each step, copied, then both trees used: every history", 2) {
    typedef Sys<int, 2> S; S s; static const std::array<int, 2> P[3] = {{2, 1}, {-1, 0}, {0, 3}};
    int n = c.choose(5); for (int i = 0; i < n; ++i) { s.add(c, P[c.choose(3)], 11 + i, i & 1); if (c.flag()) { DESC(c, "sort; "); s.t.sort(); } }
    S d{S::Tree(s.t), s.model}, e; e.add(c, {7, 7}, 1, false); e.t = s.t; e.model = s.model; d.retained(c); e.retained(c);
    S* who[3] = {&s, &d, &e}; S* a = who[c.choose(3)]; a->add(c, {-3, 1}, 40, false);
    for (S* x : who) { x->lookups(c, grid<int, 2>({-3, 0, 2})); x->search(c, S::mk({-3, 0}, 0), S::mk({1, 3}, 0)); x->searchAround(c, S::mk({0, 1}, 0), 2); if (x->model.size()) x->levels(c); x->retained(c); }
}
MC_FAMILY(items, "items built from a list of values and an id, or by default; their text", 1) {
    int k = c.choose(4), x = c.range(-3, 3), y = c.range(-3, 3), id = c.range(-1, 12); c.step(); std::ostringstream w; std::string g;
    if (k == 0) { rofl::MortonTree2i::Item i({x, y}, id); REQUIRE(c, i.values[0] == x && i.values[1] == y && i.id == id, "item of " << x << "," << y << " and " << id << " is " << i.toString()); g = i.toString(); w << "[" << x << "," << y << "](id " << id << ")"; std::ostringstream o; i.print(o); REQUIRE(c, o.str() == g, "print gives " << o.str()); }
    else if (k == 1) { rofl::MortonTree3d::Item i({x * 0.5, y * 0.25, 1.5}, id); REQUIRE(c, i.values[0] == x * 0.5 && i.values[1] == y * 0.25 && i.values[2] == 1.5 && i.id == id, "item with three values is " << i.toString()); g = i.toString(); w << "[" << x * 0.5 << "," << y * 0.25 << ",1.5](id " << id << ")"; }
    else if (k == 2) { rofl::MortonTree2l::Item i; REQUIRE(c, i.values[0] == 0 && i.values[1] == 0 && i.id == -1, "default item is " << i.toString()); g = i.toString(); w << "[0,0](id -1)"; }
    else { rofl::MortonTree3f::Item i; REQUIRE(c, i.values[0] == 0 && i.values[1] == 0 && i.values[2] == 0 && i.id == -1, "default item is " << i.toString()); g = i.toString(); w << "[0,0,0](id -1)"; }
    REQUIRE(c, g == w.str(), "item printed as " << g << ", expected " << w.str()); c.state(mc::mix(mc::mix(k, x + 9), mc::mix(y + 9, id + 9)));
}
// Larger trees.
MC_FAMILY(lattices, "lattices of n x n points, n 1..7 (1..12), 4 strides, 3 insertion orders, all boxes with corners on a 6x6 probe grid", 2) {
    typedef Sys<int, 2> S;
    S s;
    int n = c.range(1, c.tier(7, 12)), st = c.pick({1, 2, 3, 7}), ord = c.choose(3);
    DESC(c, n << "x" << n << " lattice, stride " << st << ", order " << ord);
    int N = n * n, off = -(n / 2) * st;
    for (int i = 0; i < N; ++i) { int k = ord == 0 ? i : ord == 1 ? N - 1 - i : (i * 7 + 3) % N; if (ord == 2 && N % 7 == 0) k = i; S::Item x = S::mk({off + (k % n) * st, off + (k / n) * st}, k); s.t.insert(x, false); s.model.push_back(x); }
    s.retained(c);
    std::vector<int> pv{off - 1, off, off + st, 0, off + (n - 1) * st - 1, off + (n - 1) * st};
    s.lookups(c, grid<int, 2>(pv));
    auto q = grid<int, 2>(pv);
    for (auto& lo : q) for (auto& hi : q) if (lo.values[0] <= hi.values[0] && lo.values[1] <= hi.values[1]) s.search(c, lo, hi);
    for (int r = 0; r < 4 * st; ++r) s.searchAround(c, S::mk({off + st, 1}, 0), r);
}
// Clouds with duplicates, over several orders of magnitude; the corners of the boxes are points of the cloud.
template <typename T, size_t D> static void cloud(Ctx& c, int n, int pat) {
    typedef Sys<T, D> S; S s;
    DESC(c, n << " points, pattern " << pat);
    auto coord = [&](int i, int d) -> T {
        long h = (long)(i * 2654435761u + d * 40503u) >> 3 & 0xffff;
        switch (pat) {
            case 0: return (T)(h % 17 - 8);
            case 1: return (T)((h % 2 ? 1 : -1) * (1l << h % 20));
            case 2: return (T)(d == 0 ? h % 4000 - 2000 : h % 3);
            case 3: return (T)(d == 0 ? h % 3 - 1 : h % 4000 - 2000);
            case 4: return (T)((i % 5) * 7 - 14 + d);
            default: return std::is_integral<T>::value ? (T)(h % 40 - 20) : (T)((h % 40 - 20) / 8.0);
        }
    };
    std::vector<typename S::Item> q;
    for (int i = 0; i < n; ++i) { std::array<T, D> v; for (size_t d = 0; d < D; ++d) v[d] = coord(i, d); typename S::Item x = S::mk(v, 1000 + i); s.t.insert(x, i % 3 == 0); if (i % 3 == 0) x.id = i; s.model.push_back(x); q.push_back(x); if (i % 7 == 3) s.t.sort(); }
    s.retained(c); s.lookups(c, q);
    for (auto& a : q) for (auto& b : q) { typename S::Item lo = a, hi = a; for (size_t d = 0; d < D; ++d) { lo.values[d] = std::min(a.values[d], b.values[d]); hi.values[d] = std::max(a.values[d], b.values[d]); } s.search(c, lo, hi); }
    for (size_t i = 0; i < q.size(); i += 3) for (T r : {(T)0, (T)1, (T)9, (T)100}) s.searchAround(c, q[i], r);
}
MC_FAMILY(clouds, "2D and 3D clouds of 1..40 (120) points by 3, 6 patterns (duplicates, powers of two, one long side), int, long, float and double: boxes spanned by all pairs of points, cubes around points", 2) {
    int t = c.choose(5), pat = c.choose(6), n = 1 + 3 * c.choose(c.tier(14, 40));
    if (t == 0) cloud<int, 2>(c, n, pat); else if (t == 1) cloud<double, 2>(c, n, pat); else if (t == 2) cloud<float, 3>(c, n, pat); else if (t == 3) cloud<long, 3>(c, n, pat); else cloud<int, 3>(c, n, pat);
}
// Centres and ranges next to the ends of the range of the coordinates.
template <typename T> static void ends(Ctx& c) {
    typedef std::numeric_limits<T> L;
    std::vector<T> v{L::lowest(), (T)(L::lowest() + 1), (T)(L::lowest() + 4), (T)(L::max() / 2), (T)(L::max() - 3), L::max()};
    Sys<T, 2> s; 
    int drop = c.choose(v.size() + 1);
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if ((int)i != drop) s.add(c, {v[i], v[j]}, 0, true);
    std::vector<T> q = v; q.push_back(0); q.push_back(1); q.push_back((T)(L::max() - 1));
    T x = c.pick(q), y = c.pick(q), r = c.pick(std::vector<T>{0, 1, 3, 4, (T)(L::max() / 2), (T)(L::max() - 1), L::max()});
    DESC(c, "centre " << +x << "," << +y << " range " << +r);
    s.searchAround(c, s.mk({x, y}, -7), r); s.retained(c);
}
MC_FAMILY(ends_int, "int: points, centres and ranges next to the ends of the range of the type", 2) { ends<int>(c); }
MC_FAMILY(ends_long, "long: the same", 2) { ends<long>(c); }
MC_FAMILY(ends_unsigned, "unsigned: the same", 2) { ends<unsigned>(c); }
MC_FAMILY(ends_short, "short: the same", 2) { ends<short>(c); }
// Trees with more items than 8 and 16 bits count; the expected answers come from the lattice itself.
MC_FAMILY(scale, "square lattices of 16x16, 17x17, 64x64, 256x256 and 260x260 points (3 strides, 3 insertion orders): every point looked up or every seventh, retention, order, boxes of 7 sizes at 25 places", 2) {
    int n = c.pick({16, 17, 64, 256, 260}), st = c.pick({1, 3, 1000}), ord = c.choose(3);
    typedef Sys<int, 2> Y; Y s; int N = n * n, off = -(n / 3) * st;
    DESC(c, n << "x" << n << " points, stride " << st << " order " << ord);
    auto at = [&](int k) { return Y::mk({off + (k % n) * st, off + (k / n) * st}, k); };
    std::vector<Y::Item> v; for (int i = 0; i < N; ++i) v.push_back(at(ord == 0 ? i : ord == 1 ? N - 1 - i : (int)((long)i * 10007 % N)));
    if (ord == 1) s.t.insert(v.begin(), v.end(), false); else for (auto& x : v) s.t.insert(x, false);
    c.step(N);
    s.t.findItem(at(0)); s.sorted(c);
    REQUIRE(c, (int)s.t.size() == N, "size() = " << s.t.size() << " after " << N << " insertions");
    std::vector<int> pos(N, -1); int k = 0;
    for (auto it = s.t.begin(); it != s.t.end(); ++it, ++k) { REQUIRE(c, it->id >= 0 && it->id < N && pos[it->id] < 0 && Y::eqv(*it, at(it->id)), "item " << Y::show(*it) << " was not inserted like this"); pos[it->id] = k; }
    for (int i = 0; i < N; i += N > 5000 ? 7 : 1) { auto it = s.t.findItem(at(i)); REQUIRE(c, it - s.t.begin() == pos[i], "findItem" << Y::show(at(i)) << " gives position " << it - s.t.begin() << " expected " << pos[i]); }
    for (int bx = 0; bx < 5; ++bx) for (int by = 0; by < 5; ++by) for (int w : {0, 1, 2, 9, 16, n / 2, n}) {
        int x0 = bx * n / 5, y0 = by * n / 5, x1 = x0 + w, y1 = y0 + (w * 2) / 3; c.step();
        std::vector<Y::Tree::ConstIterator> got;
        s.t.searchInBox(Y::mk({off + x0 * st, off + y0 * st}, 0), Y::mk({off + x1 * st, off + y1 * st}, 0), got);
        std::vector<char> in(N, 0);
        for (auto it : got) { REQUIRE(c, it >= s.t.begin() && it < s.t.end() && it->id >= 0 && it->id < N && !in[it->id], "box search returns an item twice or none of the tree"); in[it->id] = 1; }
        for (int i = 0; i < N; ++i) { bool want = i % n >= x0 && i % n <= x1 && i / n >= y0 && i / n <= y1; REQUIRE(c, want == (in[i] != 0), "box of " << w << " at (" << x0 << "," << y0 << "): item " << Y::show(at(i)) << (want ? " is missing" : " is returned")); }
    }
    c.state(mc::mix(mc::mix(n, st), ord));
}
MC_FAMILY(two_trees, "two trees alive together: every history of 5 (6) operations on either: insert one of 2 points with or without renumbering, lookup, box search, sort, copy over the other", 2) {
    typedef Sys<int, 2> S; S s[2]; static const std::array<int, 2> P[2] = {{3, -1}, {-2, 2}}; int depth = c.tier(5, 6);
    for (int k = 0; k < depth; ++k) {
        int op = c.choose(14), i = op / 7; op %= 7; S& x = s[i]; DESC(c, i << ":");
        if (op < 4) x.add(c, P[op / 2], 50 + k, op % 2);
        else if (op == 4) { DESC(c, "lookup and search; "); x.lookups(c, {S::mk({1, 0}, 0)}); x.search(c, S::mk({-2, -1}, 0), S::mk({1, 2}, 0)); }
        else if (op == 5) { DESC(c, "sort; "); x.t.sort(); x.sorted(c); }
        else { DESC(c, "copy; "); x = s[1 - i]; }
        s[0].retained(c); s[1].retained(c);
    }
    for (S& x : s) { x.search(c, S::mk({-3, -1}, 0), S::mk({3, 3}, 0)); x.lookups(c, {S::mk({0, 0}, 0)}); }
}
MC_FAMILY(points4i, "4D int: every multiset of up to 2 points over {-1,2}, all boxes over {-1,0,2}", 3) { points<int, 4>(c, {-1, 2}, {-1, 0, 2}, 2); }
MC_FAMILY(points5d, "5D double: every multiset of up to 2 points over {-0.5,1}, all boxes over the same", 3) { points<double, 5>(c, {-0.5, 1}, {-0.5, 1}, 2); }
MC_FAMILY(points7f, "7D float: every single point over {0.25,-3}, all boxes over the same", 2) { points<float, 7>(c, {0.25f, -3}, {0.25f, -3}, 1); }
MC_FAMILY(many_ids, "255, 256, 257, 32767..32770, 65535..65538 and 100000 items inserted one by one, as a range or converted, numbered by the tree after 0, 1 or 300 others", 2) {
    typedef Sys<int, 2> Y; int n = c.pick({255, 256, 257, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538, 100000}), how = c.choose(3), before = c.pick({0, 1, 300}); DESC(c, n << " items after " << before << " others, method " << how);
    Y::Tree t; std::vector<Y::Item> v; for (int i = 0; i < n; ++i) v.push_back(Y::mk({i % 1000, i / 1000}, -7)); for (int i = 0; i < before; ++i) t.insert(Y::mk({-1 - i, -1}, -9), true);
    auto conv = [](const Y::Item& x) { return x; };
    if (how == 0) for (auto& x : v) t.insert(x, true); else if (how == 1) t.insert(v.begin(), v.end(), true); else t.insert(v.begin(), v.end(), conv, true);
    c.step(n); c.state(mc::mix(n, how * 1000 + before)); REQUIRE(c, (int)t.size() == n + before, "size() = " << t.size()); t.sort(); std::vector<char> seen(n + before, 0);
    for (auto it = t.begin(); it != t.end(); ++it) { int k = it->id; REQUIRE(c, k >= 0 && k < n + before && !seen[k], "number " << k << " is out of range or given twice"); seen[k] = 1;
        REQUIRE(c, Y::eqv(*it, k < before ? Y::mk({-1 - k, -1}, k) : Y::mk({(k - before) % 1000, (k - before) / 1000}, k)), "the number " << k << " is given to " << Y::show(*it)); }
}
MC_MAIN()
