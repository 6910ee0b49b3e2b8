// C02: second smallest and second largest element of the double-ended heap.
// QUICK: 1
#include <functional>
#include <set>
#include <deque>
#include <rofl/common/min_max_heap.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

template <typename Cmp, template <typename, typename> class Cont = std::vector>
struct Sys {
    rofl::MinMaxHeap<int, Cmp, Cont> h;
    std::multiset<int, Cmp> m;
    void check(Ctx& c) {
        c.step();
        u64 k = 1;
        for (auto it = h.begin(); it != h.end(); ++it) k = mc::mix(k, *it + 3);
        c.state(k);
        REQUIRE(c, h.size() == m.size(), "size() " << h.size() << " expected " << m.size());
        if (m.empty()) return;
        int wt = *m.begin(), wb = *m.rbegin(), t2 = wt, b2 = wb;
        if (m.size() > 1) { t2 = *std::next(m.begin()); b2 = *std::next(m.rbegin()); }
        REQUIRE(c, h.top() == wt, "top() = " << h.top() << " expected " << wt);
        REQUIRE(c, h.bottom() == wb, "bottom() = " << h.bottom() << " expected " << wb);
        REQUIRE(c, h.nextTop() == t2, "nextTop() = " << h.nextTop() << " expected " << t2 << " with " << m.size() << " elements");
        REQUIRE(c, h.nextBottom() == b2, "nextBottom() = " << h.nextBottom() << " expected " << b2 << " with " << m.size() << " elements");
    }
    void push(Ctx& c, int v) { DESC(c, "push(" << v << ") "); h.push(v); m.insert(v); check(c); }
    void popTop(Ctx& c) { DESC(c, "popTop "); h.popTop(); m.erase(m.begin()); check(c); }
    void popBottom(Ctx& c) { DESC(c, "popBottom "); h.popBottom(); m.erase(std::prev(m.end())); check(c); }
};

template <typename S> void history(Ctx& c, S& s, int depth, int keys) {
    for (int d = 0; d < depth; ++d) {
        int op = c.choose(s.m.empty() ? keys : keys + 2);
        if (op < keys) s.push(c, op); else if (op == keys) s.popTop(c); else s.popBottom(c);
    }
}
MC_FAMILY(histories, "all push/popTop/popBottom histories over 3 keys, length 8 (10 thorough); thorough tier up to 11", 3) { Sys<std::less<int>> s; history(c, s, c.tier(8, 10, 11), 3); }
MC_FAMILY(histories_greater, "as above, std::greater, deque storage, 4 keys, length 6 (8); thorough tier up to 9", 3) { Sys<std::greater<int>, std::deque> s; history(c, s, c.tier(6, 8, 9), 4); }
MC_FAMILY(permutations, "every permutation of 1..8 (9 thorough) distinct keys, then drained by every alternation of period <= 2; thorough tier up to 10", 4) {
    int n = c.range(1, c.tier(8, 9, 10));
    Sys<std::less<int>> s;
    std::vector<int> left(n);
    for (int i = 0; i < n; ++i) left[i] = i;
    while (!left.empty()) { int k = c.choose(left.size()); s.push(c, left[k]); left.erase(left.begin() + k); }
    int pat = n == 8 && !c.thorough() ? 2 : c.choose(4);
    for (int i = 0; i < n; ++i) if ((pat >> (i % 2)) & 1) s.popTop(c); else s.popBottom(c);
}
static int gen(int kind, int i, int n) {
    switch (kind) {
        case 0: return i;
        case 1: return n - i;
        case 2: return (i * 37) % 101;
        case 3: return i % 2 ? i : n - i;
        case 4: return i % 5;
        case 5: return (i * i) % 31;
        case 6: return (i * 17 + 5) % 64;
        case 7: return i < n / 2 ? i : n - i;
        case 8: return (int)((unsigned)(i * 2654435761u) >> 25);
        default: return __builtin_popcount(i) * 3 - i % 3;
    }
}
MC_FAMILY(large_heaps, "10 key patterns x sizes 1..50 (1..300) x all 16 drain patterns of period 4", 2) {
    int kind = c.choose(10), n = c.range(1, c.tier(50, 300)), pat = c.choose(16);
    DESC(c, "pattern " << kind << " n " << n << " drain " << pat << ": ");
    Sys<std::less<int>> s;
    for (int i = 0; i < n; ++i) s.push(c, gen(kind, i, n));
    for (int t = 0; !s.m.empty(); ++t) {
        if ((pat >> (t % 4)) & 1) s.popTop(c); else s.popBottom(c);
        if (t % 3 == 2 && t < 2 * n) s.push(c, gen(kind, t + n, n));
    }
}
MC_FAMILY(deep_heaps, "10 key patterns x every size 60..70, 124..132, 252..260 and 508..516, drained by 3 patterns", 2) {
    static const int B[4] = {60, 124, 252, 508};
    int kind = c.choose(10), k = c.choose(4), n = B[k] + c.choose(9), pat = c.choose(3);
    DESC(c, "pattern " << kind << " n " << n << " drain " << pat << ": ");
    Sys<std::less<int>> s;
    for (int i = 0; i < n; ++i) s.push(c, gen(kind, i, n));
    for (int t = 0; !s.m.empty() && t < 40 + (k == 0 ? 1000 : 0); ++t) if (pat == 0 || (pat == 2 && t % 2)) s.popTop(c); else s.popBottom(c);
}
MC_FAMILY(huge_heaps, "3 key patterns x 32768, 65536, 131072 and 262144 plus -1, 0, 1 and 1000 items, filled and drained from the top, the bottom or alternately", 2) {
    int n = c.pick({32768, 65536, 131072, 262144}) + c.pick({1000, -1, 0, 1}), kind = c.choose(3), pat = c.choose(3);
    DESC(c, "pattern " << kind << " n " << n << " drain " << pat);
    rofl::MinMaxHeap<int> h; std::vector<int> k(n);
    for (int i = 0; i < n; ++i) { k[i] = kind == 0 ? i : kind == 1 ? -i : (int)((long)i * 40503 % 65521); h.push(k[i]); }
    std::sort(k.begin(), k.end());
    size_t lo = 0, hi = n;
    for (; lo + 1 < hi;) {
        c.step();
        REQUIRE(c, h.nextTop() == k[lo + 1], "nextTop() = " << h.nextTop() << " expected " << k[lo + 1] << " with " << hi - lo << " items");
        REQUIRE(c, h.nextBottom() == k[hi - 2], "nextBottom() = " << h.nextBottom() << " expected " << k[hi - 2] << " with " << hi - lo << " items");
        if (pat == 0 || (pat == 2 && lo % 2 == hi % 2)) { h.popTop(); ++lo; } else { h.popBottom(); --hi; }
    }
    c.state(mc::mix(mc::mix(kind, n), pat));
}
MC_MAIN()
