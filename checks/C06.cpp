// C06: raster and boustrophedon iteration over intervals.
// QUICK: 1
#include <set>
#include <iterator>
#include <rofl/common/interval_indices.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <size_t D, typename I> struct It {
    typedef std::array<I, D> P;
    typedef rofl::IntervalIndices<D, I> V;
    static std::string show(const P& r) { std::ostringstream o; for (size_t d = 0; d < D; ++d) o << (d ? "," : "(") << (long)r[d]; return o.str() + ")"; }

    // Reference order: dimension 0 fastest; zig-zag reverses the direction of a dimension
    // every time it has been swept.
    static std::vector<P> reference(const P& mn, const P& dm, bool zigzag) {
        std::vector<P> out;
        for (auto x : dm) if (x <= 0) return out;
        P cur; cur.fill(0);
        std::array<int, D> dir; dir.fill(1);
        while (true) {
            P p; for (size_t d = 0; d < D; ++d) p[d] = mn[d] + cur[d];
            out.push_back(p);
            size_t d = 0;
            for (; d < D; ++d) {
                if (!zigzag) { if (++cur[d] < dm[d]) break; cur[d] = 0; }
                else { long nx = (long)cur[d] + dir[d]; if (nx >= 0 && nx < (long)dm[d]) { cur[d] = (I)nx; break; } dir[d] = -dir[d]; }
            }
            if (d == D) return out;
        }
    }
    template <typename B, typename E> static void walk(Ctx& c, B b, E e, const P& mn, const P& dm, bool zigzag, const char* what) {
        auto ref = reference(mn, dm, zigzag);
        size_t k = 0;
        P prev{};
        std::set<P> visited;
        auto it = b;
        for (; it != e; ++it) {
            c.step();
            REQUIRE(c, k < ref.size(), what << ": visits more than " << ref.size() << " cells");
            P p = *it;
            REQUIRE(c, visited.insert(p).second, what << ": cell " << show(p) << " visited twice");
            for (size_t d = 0; d < D; ++d) REQUIRE(c, p[d] >= mn[d] && p[d] < mn[d] + dm[d], what << ": cell " << show(p) << " is outside");
            if (zigzag && k > 0) {
                long dist = 0; for (size_t d = 0; d < D; ++d) dist += std::labs((long)p[d] - (long)prev[d]);
                REQUIRE(c, dist == 1, what << ": jumps from " << show(prev) << " to " << show(p));
            }
            REQUIRE(c, p == ref[k], what << ": position " << k << " is " << show(p) << " expected " << show(ref[k]));
            REQUIRE(c, (*(it.operator->()))[0] == p[0], what << ": -> and * disagree");
            prev = p; ++k;
        }
        REQUIRE(c, k == ref.size(), what << ": visits " << k << " of " << ref.size() << " cells");
        // Backwards from the end.
        if (!ref.empty()) {
            auto r = e;
            for (size_t j = ref.size(); j > 0; --j) {
                c.step();
                REQUIRE(c, r != b, what << ": reached the beginning after " << ref.size() - j << " steps back");
                if (j % 2) --r; else { auto old = r--; REQUIRE(c, !(old == r), what << ": post-decrement"); }
                REQUIRE(c, *r == ref[j - 1], what << ": going back, position " << j - 1 << " is " << show(*r) << " expected " << show(ref[j - 1]));
            }
            REQUIRE(c, r == b, what << ": going back does not end at the beginning");
            auto q = b; auto o = q++;
            REQUIRE(c, *o == ref[0] && o == b, what << ": post-increment returns a different position");
            if (ref.size() > 1) REQUIRE(c, *q == ref[1], what << ": post-increment did not advance");
            // Every position: one step back and forth, and forth and back, returns to it.
            auto w = b;
            for (size_t j = 0; j <= ref.size(); ++j) {
                c.step();
                auto x = w;
                if (j < ref.size()) {
                    auto& y = ++x; REQUIRE(c, &y == &x && x != w, what << ": increment at position " << j);
                    auto z = x--; REQUIRE(c, x == w && *x == ref[j] && z != x, what << ": decrement does not undo the increment at position " << j);
                }
                if (j > 0) {
                    auto& y = --x; REQUIRE(c, &y == &x && x != w && *x == ref[j - 1], what << ": decrement at position " << j);
                    auto z = x++; REQUIRE(c, x == w && z != x && *z == ref[j - 1], what << ": increment does not undo the decrement at position " << j);
                }
                if (j < ref.size()) { REQUIRE(c, *x == ref[j], what << ": position " << j << " changed after stepping back and forth"); ++w; }
            }
            REQUIRE(c, w == e, what << ": the end is not reached after " << ref.size() << " increments");
        }
    }
    static void run(Ctx& c, int dmin, int dmax, const std::vector<int>& off) {
        P mn, dm;
        for (size_t d = 0; d < D; ++d) { dm[d] = c.range(dmin, dmax); }
        int o = off[c.choose(off.size())];
        for (size_t d = 0; d < D; ++d) mn[d] = o * (int)(d + 1);
        DESC(c, "min " << show(mn) << " dimensions " << show(dm));
        u64 k = D; for (size_t d = 0; d < D; ++d) k = mc::mix(mc::mix(k, mn[d] + 50), dm[d] + 50);
        c.state(k);
        V v(mn, dm);
        walk(c, v.beginRaster(), v.endRaster(), mn, dm, false, "raster");
        walk(c, v.beginBoustrophedon(), v.endBoustrophedon(), mn, dm, true, "boustrophedon");
    }
};
MC_FAMILY(dim1, "1D, dimensions -1..40, offsets -5,0,3, int", 1) { It<1, int>::run(c, -1, 40, {-5, 0, 3}); }
MC_FAMILY(dim2, "2D, dimensions -1..13 (-1..20), offsets -5,0,3, int; thorough tier up to 30", 2) { It<2, int>::run(c, -1, c.tier(13, 20, 30), {-5, 0, 3}); }
MC_FAMILY(dim2long, "2D, dimensions 0..6, long", 2) { It<2, long>::run(c, 0, 6, {-100000, 1}); }
MC_FAMILY(dim2short, "2D, dimensions 0..6, short", 2) { It<2, short>::run(c, 0, 6, {-300, 1}); }
MC_FAMILY(dim3, "3D, dimensions -1..7 (-1..10), offsets -2,0; thorough tier up to 14", 2) { It<3, int>::run(c, -1, c.tier(7, 10, 14), {-2, 0}); }
MC_FAMILY(dim4, "4D, dimensions 0..5 (0..6), offsets -1; thorough tier up to 8", 2) { It<4, int>::run(c, 0, c.tier(5, 6, 8), {-1}); }
MC_FAMILY(dim5, "5D, dimensions 1..4", 2) { It<5, int>::run(c, 1, 4, {-1}); }
MC_FAMILY(dim6, "6D, dimensions 1..3", 2) { It<6, int>::run(c, 1, 3, {-1}); }
MC_FAMILY(dim3long, "3D long, dimensions 1..5", 2) { It<3, long>::run(c, 1, 5, {-100000}); }

// Many cells: positions do not fit 16 bits.
MC_FAMILY(large, "2D boxes of up to 300x300 cells (1500x1500 thorough) walked completely", 1) {
    std::vector<int> n = c.thorough() ? std::vector<int>{1, 255, 256, 700, 1500} : std::vector<int>{1, 2, 255, 256, 300};
    std::array<int, 2> mn{-3, 4}, dm{c.pick(n), c.pick(n)};
    DESC(c, dm[0] << "x" << dm[1]);
    c.state(mc::mix(dm[0], dm[1]));
    rofl::IntervalIndices<2, int> v(mn, dm);
    It<2, int>::walk(c, v.beginRaster(), v.endRaster(), mn, dm, false, "raster");
    It<2, int>::walk(c, v.beginBoustrophedon(), v.endBoustrophedon(), mn, dm, true, "boustrophedon");
}
MC_FAMILY(large3, "3D boxes with sides from {1, 2, 7, 40, 41} (and 90, thorough) walked completely", 2) {
    std::vector<int> n{1, 2, 7, 40, 41};
    if (c.thorough()) n.push_back(90);
    std::array<int, 3> mn{-3, 4, 1000}, dm{c.pick(n), c.pick(n), c.pick(n)};
    DESC(c, dm[0] << "x" << dm[1] << "x" << dm[2]);
    c.state(mc::mix(mc::mix(dm[0], dm[1]), dm[2]));
    rofl::IntervalIndices<3, int> v(mn, dm);
    It<3, int>::walk(c, v.beginRaster(), v.endRaster(), mn, dm, false, "raster");
    It<3, int>::walk(c, v.beginBoustrophedon(), v.endBoustrophedon(), mn, dm, true, "boustrophedon");
}
// More cells than the index type can count (the indices themselves are representable).
template <typename I> static void narrow(Ctx& c, const std::vector<int>& n) {
    std::array<I, 2> mn{(I)-60, (I)5}, dm{(I)c.pick(n), (I)c.pick(n)};
    DESC(c, (int)dm[0] << "x" << (int)dm[1]); c.state(mc::mix(mc::mix(dm[0], dm[1]), sizeof(I)));
    rofl::IntervalIndices<2, I> v(mn, dm);
    It<2, I>::walk(c, v.beginRaster(), v.endRaster(), mn, dm, false, "raster");
    It<2, I>::walk(c, v.beginBoustrophedon(), v.endBoustrophedon(), mn, dm, true, "boustrophedon");
}
MC_FAMILY(narrow8, "2D int8 boxes with sides from {1, 2, 11, 12, 16, 17, 64, 110}: up to 12100 cells", 1) { narrow<int8_t>(c, {1, 2, 11, 12, 16, 17, 64, 110}); }
MC_FAMILY(narrow16, "2D short boxes with sides from {1, 181, 182, 256, 300}: up to 90000 cells", 1) { narrow<short>(c, {1, 181, 182, 256, 300}); }
MC_MAIN()
