// C07: grids: index/position bijection and storage isolation.
// QUICK: 1
#include <set>
#include <deque>
#include <string>
#include <rofl/common/grid.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename T> struct Mk { static T v(long x) { return (T)x; } };
template <> struct Mk<std::string> { static std::string v(long x) { return "value-" + std::to_string(x) + std::string(20, 'x'); } };

template <size_t D, typename T, typename I = int, template <class, class> class C = std::vector>
struct G {
    typedef rofl::Grid<D, T, I, rofl::detail::RasterIndexer<D, I>, C> Grid;
    typedef std::array<I, D> P;
    static std::string show(const P& r) { std::ostringstream o; for (size_t d = 0; d < D; ++d) o << (d ? "," : "(") << (long)r[d]; return o.str() + ")"; }
    static std::vector<P> cells(const P& mn, const P& dm) {
        std::vector<P> out; P cur; cur.fill(0);
        for (auto x : dm) if (x <= 0) return out;
        while (true) {
            P p; for (size_t d = 0; d < D; ++d) p[d] = mn[d] + cur[d];
            out.push_back(p);
            size_t d = 0;
            while (d < D && ++cur[d] == dm[d]) cur[d++] = 0;
            if (d == D) return out;
        }
    }
    static void verify(Ctx& c, Grid& g, const P& mn, const P& dm, const char* what) {
        auto cs = cells(mn, dm);
        size_t n = cs.size();
        REQUIRE(c, g.size() == n, what << ": size() = " << g.size() << " expected " << n);
        REQUIRE(c, g.dimensions() == dm, what << ": dimensions()");
        std::vector<char> hit(n, 0);
        for (size_t i = 0; i < n; ++i) {
            c.step();
            I pos = g.getPos(cs[i]);
            REQUIRE(c, pos >= 0 && (size_t)pos < n, what << ": getPos" << show(cs[i]) << " = " << pos << " with " << n << " cells");
            REQUIRE(c, !hit[pos], what << ": two cells share position " << pos);
            hit[pos] = 1;
            REQUIRE(c, g.getIndices(pos) == cs[i], what << ": getIndices(getPos" << show(cs[i]) << ") = " << show(g.getIndices(pos)));
            REQUIRE(c, (size_t)pos == i, what << ": getPos" << show(cs[i]) << " = " << pos << " is not the raster position " << i);
            typedef rofl::detail::StaticRasterIndexer<D, I> SR;
            P back; back.fill(-77);
            SR::getIndices((I)i, mn.data(), dm.data(), back.data());
            REQUIRE(c, SR::getPos(mn.data(), dm.data(), cs[i].data()) == (I)i && back == cs[i], what << ": the static indexer gives position " << SR::getPos(mn.data(), dm.data(), cs[i].data()) << " for cell " << show(cs[i]) << " and cell " << show(back) << " for position " << i);
            REQUIRE(c, g.inside(cs[i]), what << ": inside" << show(cs[i]) << " is false");
        }
        // cells around the domain are outside
        for (size_t d = 0; d < D; ++d) for (int s = 0; s < 2; ++s) for (auto& p : cs) {
            P q = p; q[d] = s ? mn[d] + dm[d] : mn[d] - 1;
            REQUIRE(c, !g.inside(q), what << ": inside" << show(q) << " is true");
        }
        // every accessor reaches the same storage, each cell its own
        for (size_t i = 0; i < n; ++i) {
            if (i % 3 == 0) g.value(cs[i]) = Mk<T>::v(i + 1);
            else if (i % 3 == 1) g.value((I)i) = Mk<T>::v(i + 1);
            else g.value(cs[i].data()) = Mk<T>::v(i + 1);
        }
        const Grid& k = g;
        auto same = [&](size_t skip, const T& sv) {
            for (size_t i = 0; i < n; ++i) {
                T w = i == skip ? sv : Mk<T>::v(i + 1);
                REQUIRE(c, k.value(cs[i]) == w && g.value(cs[i]) == w, what << ": value" << show(cs[i]) << " is not what was stored there");
                REQUIRE(c, k.value((I)i) == w && g.value((I)i) == w, what << ": value(" << i << ") is not what was stored there");
                REQUIRE(c, k.value(cs[i].data()) == w && g.value(cs[i].data()) == w, what << ": value(pointer) differs at " << show(cs[i]));
            }
        };
        same(n, T());
        for (size_t i = 0; i < n; i += (n > 40 ? 7 : 1)) {
            c.step();
            g.value(cs[i]) = Mk<T>::v(99);
            same(i, Mk<T>::v(99));
            g.value(cs[i]) = Mk<T>::v(i + 1);
        }
        // positional access is checked
        for (long bad : {(long)n, (long)n + 1, 2 * (long)n + 7, -1l, -(long)n - 1}) {
            bool threw2 = false;
            try { (void)g.value((I)bad); } catch (const std::exception&) { threw2 = true; }
            REQUIRE(c, threw2, what << ": value(" << bad << ") for writing is accepted with " << n << " cells");
            bool threw = false;
            try { (void)k.value((I)bad); } catch (const std::exception&) { threw = true; }
            REQUIRE(c, threw, what << ": value(" << bad << ") is accepted with " << n << " cells");
        }
        Grid copy(g);
        g.fill(Mk<T>::v(55));
        for (size_t i = 0; i < n; ++i) {
            REQUIRE(c, k.value(cs[i]) == Mk<T>::v(55), what << ": fill missed " << show(cs[i]));
            REQUIRE(c, copy.value(cs[i]) == Mk<T>::v(i + 1), what << ": a copy shares storage");
        }
        Grid asg; asg = copy;
        copy.fill(Mk<T>::v(56));
        REQUIRE(c, asg.size() == n && asg.dimensions() == dm, what << ": assigned grid");
        for (size_t i = 0; i < n; ++i) REQUIRE(c, asg.value(cs[i]) == Mk<T>::v(i + 1) && asg.getPos(cs[i]) == (I)i && k.value(cs[i]) == Mk<T>::v(55), what << ": an assigned grid differs from its source or shares storage");
    }
    static void pickBox(Ctx& c, P& mn, P& dm, int lo, int hi, std::vector<int> off) {
        for (size_t d = 0; d < D; ++d) dm[d] = c.range(lo, hi);
        int o = off[c.choose(off.size())];
        for (size_t d = 0; d < D; ++d) mn[d] = o * (int)(d + 1) + (d % 2);
    }
    static void run(Ctx& c, int lo, int hi, std::vector<int> off) {
        P mn, dm;
        pickBox(c, mn, dm, lo, hi, off);
        int how = c.choose(6);
        P zero; zero.fill(0);
        DESC(c, "min " << show(mn) << " dims " << show(dm) << " how " << how);
        u64 h = mc::mix(how, D); for (size_t d = 0; d < D; ++d) h = mc::mix(mc::mix(h, mn[d] + 20), dm[d]);
        c.state(h);
        if (how == 0) { Grid g(mn, dm); verify(c, g, mn, dm, "grid(min, dims)"); }
        else if (how == 1) { Grid g(dm); verify(c, g, zero, dm, "grid(dims)"); }
        else {
            Grid g; P ini; ini.fill(D == 1 ? 20 : 2);
            REQUIRE(c, g.size() == 0, "a default grid has cells");
            int before = c.choose(4);
            if (before == 2) for (size_t d = 0; d < D; ++d) ini[d] = 1 + (d * 2) % 5;
            if (before == 3) {  // another box elsewhere, left by any of the initialisations
                P o; for (size_t d = 0; d < D; ++d) { o[d] = 7 - 3 * (int)d; ini[d] = 2 + d; }
                if (c.flag()) { g.initBounds(o, ini); verify(c, g, o, ini, "initBounds(min, dims) before"); }
                else { P mx; for (size_t d = 0; d < D; ++d) mx[d] = o[d] + ini[d] - 1; g.initMinMax(o, mx); verify(c, g, o, ini, "initMinMax before"); }
            } else if (before) { g.initBounds(ini); verify(c, g, zero, ini, "initBounds before"); }
            if (how == 2) { g.initBounds(mn, dm); verify(c, g, mn, dm, "initBounds(min, dims)"); }
            else if (how == 3) { g.initBounds(dm); verify(c, g, zero, dm, "initBounds(dims)"); }
            else if (how == 4) {
                P mx; for (size_t d = 0; d < D; ++d) mx[d] = mn[d] + dm[d] - 1;
                g.initMinMax(mn, mx); verify(c, g, mn, dm, "initMinMax");
            } else {
                P w, lo2, dd; for (size_t d = 0; d < D; ++d) { w[d] = dm[d] / 2; lo2[d] = mn[d] - w[d]; dd[d] = 2 * w[d] + 1; }
                g.initCenter(mn, w); verify(c, g, lo2, dd, "initCenter");
            }
        }
    }
};
MC_FAMILY(g1, "1D int grid, 0..12 cells, 3 origins, all initialisations", 2) { G<1, int>::run(c, 0, 12, {-4, 0, 5}); }
MC_FAMILY(g2, "2D int grid, 0..6 (0..8) per side; thorough tier up to 12", 2) { G<2, int>::run(c, 0, c.tier(6, 8, 12), {-4, 0, 5}); }
MC_FAMILY(g2s, "2D string grid, 1..4 per side", 2) { G<2, std::string>::run(c, 1, 4, {-2, 3}); }
MC_FAMILY(g2l, "2D double grid, long index, deque storage, 1..4 per side", 2) { G<2, double, long, std::deque>::run(c, 1, 4, {-2, 3}); }
MC_FAMILY(g3, "3D int grid, 0..4 (0..5) per side; thorough tier up to 7", 2) { G<3, int>::run(c, 0, c.tier(4, 5, 7), {-2, 1}); }
MC_FAMILY(g3l, "3D float grid, long index, 1..3 per side", 2) { G<3, float, long>::run(c, 1, 3, {-2}); }
MC_FAMILY(g4, "4D int grid, 1..3 (1..4) per side; thorough tier up to 5", 2) { G<4, int>::run(c, 1, c.tier(3, 4, 5), {-1}); }
MC_FAMILY(big2, "2D grids with sides from {1,2,17,64,101}", 1) {
    std::vector<int> n{1, 2, 17, 64, 101};
    typedef G<2, int> T;
    T::P mn{-30, 9}, dm{c.pick(n), c.pick(n)};
    DESC(c, dm[0] << "x" << dm[1]);
    c.state(mc::mix(dm[0] * 1000, dm[1]));
    T::Grid g(mn, dm);
    auto cs = T::cells(mn, dm);
    for (size_t i = 0; i < cs.size(); ++i) { c.step(); g.value(cs[i]) = i; REQUIRE(c, g.getPos(cs[i]) == (int)i && g.getIndices(i) == cs[i], "position " << i << " of cell " << T::show(cs[i]) << " is " << g.getPos(cs[i])); }
    for (size_t i = 0; i < cs.size(); ++i) REQUIRE(c, g.value((int)i) == (int)i && g.value(cs[i].data()) == (int)i, "cell " << T::show(cs[i]) << " was overwritten");
}
MC_FAMILY(scale, "grids with more than 255, 65535 and one million cells: 1D 256, 257, 65536, 65537, 70000; 2D 300x300, 2x40000, 40000x2; 3D 41x40x41; 110x100x100: positions, indices and values of every cell, filling, copies", 1) {
    int s = c.choose(10);
    auto run = [&](auto tag, auto mn, auto dm) {
        typedef decltype(tag) T;
        DESC(c, "dims " << T::show(dm)); c.state(mc::mix(s, 77));
        typename T::Grid g(mn, dm);
        auto cs = T::cells(mn, dm);
        REQUIRE(c, g.size() == cs.size(), "size() = " << g.size() << " expected " << cs.size());
        typedef rofl::detail::StaticRasterIndexer<std::tuple_size<decltype(dm)>::value, int> SR;
        for (size_t i = 0; i < cs.size(); ++i) {
            c.step(); g.value(cs[i]) = (int)i; decltype(dm) b = mn;
            SR::getIndices((int)i, mn.data(), dm.data(), b.data());
            REQUIRE(c, g.getPos(cs[i]) == (int)i && g.getIndices((int)i) == cs[i] && g.inside(cs[i]), "position " << i << " of cell " << T::show(cs[i]) << " is " << g.getPos(cs[i]));
            REQUIRE(c, SR::getPos(mn.data(), dm.data(), cs[i].data()) == (int)i && b == cs[i], "static indexer: position " << i << " of cell " << T::show(cs[i]));
        }
        for (size_t i = 0; i < cs.size(); ++i) REQUIRE(c, g.value((int)i) == (int)i && g.value(cs[i].data()) == (int)i && g.value(cs[i]) == (int)i, "cell " << T::show(cs[i]) << " was overwritten");
        typename T::Grid copy(g), other; other = g; g.fill(-3);
        for (size_t i = 0; i < cs.size(); ++i) REQUIRE(c, g.value((int)i) == -3 && copy.value((int)i) == (int)i && other.value(cs[i]) == (int)i, "filling: cell " << T::show(cs[i]) << " is " << g.value((int)i) << ", in the copies " << copy.value((int)i) << " and " << other.value(cs[i]));
    };
    typedef std::array<int, 1> A1; typedef std::array<int, 2> A2; typedef std::array<int, 3> A3;
    static const int L[5] = {256, 257, 65536, 65537, 70000}, P[3][2] = {{300, 300}, {2, 40000}, {40000, 2}};
    if (s < 5) run(G<1, int>(), A1{-9}, A1{L[s]});
    else if (s < 8) run(G<2, int>(), A2{-9, 4}, A2{P[s - 5][0], P[s - 5][1]});
    else run(G<3, int>(), A3{0, -7, 3}, s == 8 ? A3{41, 40, 41} : A3{110, 100, 100});
}
MC_FAMILY(g5, "5D int grid, 1..2 (1..3) per side", 3) { G<5, int>::run(c, 1, c.tier(2, 2, 3), {-1}); }
MC_FAMILY(g6, "6D int grid, 1..2 per side", 3) { G<6, int>::run(c, 1, 2, {1}); }
MC_MAIN()
