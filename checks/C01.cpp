// C01: the double-ended heap against a multiset.
#include <set>
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <deque>
#include <rofl/common/min_max_heap.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// An element with identity: equal keys are told apart, so that a value that is lost and
// another that is duplicated is noticed even among equivalent elements.
struct Item { int key; int id; };
std::ostream& operator<<(std::ostream& o, const Item& i) { return o << i.key << "#" << i.id; }
struct ByKey { bool operator()(const Item& a, const Item& b) const { return a.key < b.key; } };
struct ByKeyDesc { bool operator()(const Item& a, const Item& b) const { return a.key > b.key; } };
struct ByMod { int m = 3; bool operator()(const Item& a, const Item& b) const { return a.key % m < b.key % m; } };
struct ByPtr { const std::vector<int>* rank; ByPtr(const std::vector<int>* r = nullptr) : rank(r) {}
    bool operator()(const Item& a, const Item& b) const { return (*rank)[a.key] < (*rank)[b.key]; } };

template <typename Cmp, template <typename, typename> class Cont = std::vector>
struct Sys {
    rofl::MinMaxHeap<Item, Cmp, Cont> h;
    std::vector<Item> model;  // live elements
    Cmp cmp;
    int next = 0;
    Sys(const Cmp& k = Cmp()) : h(k), cmp(k) {}

    void checkAll(Ctx& c, bool full = true) {
        c.step();
        REQUIRE(c, h.size() == model.size(), "size() = " << h.size() << " but " << model.size() << " elements are in");
        REQUIRE(c, h.empty() == model.empty(), "empty() wrong");
        if (model.empty()) return;
        const Item t = h.top(), b = h.bottom();
        bool tin = false, bin = false;
        for (auto& m : model) {
            REQUIRE(c, !cmp(m, t), "top() = " << t << " but " << m << " orders before it");
            REQUIRE(c, !cmp(b, m), "bottom() = " << b << " but " << m << " orders after it");
            if (m.id == t.id && m.key == t.key) tin = true;
            if (m.id == b.id && m.key == b.key) bin = true;
        }
        REQUIRE(c, tin, "top() = " << t << " is not an element of the heap");
        REQUIRE(c, bin, "bottom() = " << b << " is not an element of the heap");
        if (full) {
            // The elements visited are exactly the live ones.
            std::vector<char> hit(next, 0);
            size_t n = 0;
            for (auto it = h.begin(); it != h.end(); ++it, ++n) {
                REQUIRE(c, it->id >= 0 && it->id < next && !hit[it->id], "iteration visits " << *it << " twice or a foreign element");
                hit[it->id] = 1;
            }
            REQUIRE(c, n == model.size(), "iteration visits " << n << " elements");
            for (auto& m : model) REQUIRE(c, hit[m.id], "element " << m << " is lost");
        }
    }
    u64 hash() const {
        u64 k = model.size();
        for (auto it = h.begin(); it != h.end(); ++it) k = mc::mix(k, it->key + 7);
        return k;
    }
    void push(Ctx& c, int key, bool full = true) {
        DESC(c, "push(" << key << ") ");
        Item i{key, next++};
        h.push(i); model.push_back(i);
        c.state(hash());
        checkAll(c, full);
    }
    void drop(int id) { for (size_t i = 0; i < model.size(); ++i) if (model[i].id == id) { model[i] = model.back(); model.pop_back(); return; } }
    void popTop(Ctx& c) {
        DESC(c, "popTop ");
        Item t = h.top(); h.popTop(); drop(t.id);
        c.state(hash());
        checkAllDrop(c);
    }
    void popBottom(Ctx& c) {
        DESC(c, "popBottom ");
        Item t = h.bottom(); h.popBottom(); drop(t.id);
        c.state(hash());
        checkAllDrop(c);
    }
    // After a pop any element equivalent to the removed one may be the one that left.
    void checkAllDrop(Ctx& c) {
        c.step();
        REQUIRE(c, h.size() == model.size(), "size() = " << h.size() << " after a pop, expected " << model.size());
        // resynchronise identities: the multiset of keys must agree under the comparator
        std::vector<Item> live(h.begin(), h.end());
        std::vector<char> in(next, 0);
        for (auto& l : live) {
            REQUIRE(c, l.id >= 0 && l.id < next && !in[l.id], "a pop duplicated element " << l);
            in[l.id] = 1;
        }
        std::vector<Item> lost;
        for (auto& m : model) { if (in[m.id]) in[m.id] = 2; else lost.push_back(m); }
        for (auto& l : live) if (in[l.id] == 1) {
            bool ok = false;
            for (size_t i = 0; i < lost.size() && !ok; ++i)
                if (!cmp(l, lost[i]) && !cmp(lost[i], l)) { lost.erase(lost.begin() + i); ok = true; }
            REQUIRE(c, ok, "a pop left element " << l << " that should have gone");
        }
        REQUIRE(c, lost.empty(), "a pop lost element " << lost[0]);
        model = live;
        checkAll(c, false);
    }
};

template <typename S>
void history(Ctx& c, S& s, int depth, int keys) {
    for (int d = 0; d < depth; ++d) {
        int nop = s.model.empty() ? keys : keys + 2;
        int op = c.choose(nop);
        if (op < keys) s.push(c, op);
        else if (op == keys) s.popTop(c);
        else s.popBottom(c);
    }
}

MC_FAMILY(histories_less, "all push/popTop/popBottom histories over 3 keys, length 8 (10 thorough), default order; thorough tier up to 11", 3) {
    Sys<ByKey> s;
    history(c, s, c.tier(8, 10, 11), 3);
}
MC_FAMILY(histories_two_keys, "all histories over 2 keys, length 10 (12 thorough): many duplicates; thorough tier up to 14", 3) {
    Sys<ByKey> s;
    history(c, s, c.tier(10, 12, 14), 2);
}
MC_FAMILY(histories_greater, "all histories over 3 keys, length 7 (9 thorough), reversed order, deque storage; thorough tier up to 10", 3) {
    Sys<ByKeyDesc, std::deque> s;
    history(c, s, c.tier(7, 9, 10), 3);
}
MC_FAMILY(histories_stateful_order, "all histories over 4 keys, length 6 (8), comparator with a state given at construction; thorough tier up to 9", 3) {
    std::vector<int> rank = c.pick(std::vector<std::vector<int>>{{2, 0, 1, 0}, {1, 3, 0, 2}});
    Sys<ByPtr> s{ByPtr(&rank)};
    history(c, s, c.tier(6, 8, 9), 4);
}
MC_FAMILY(permutations_then_drain, "every permutation of n keys pushed (n<=7, 8 thorough), then drained by every alternation pattern of period 1..3; thorough tier up to 9", 4) {
    int n = c.range(1, c.tier(7, 8, 9));
    Sys<ByKey> s;
    std::vector<int> left(n);
    for (int i = 0; i < n; ++i) left[i] = i;
    while (!left.empty()) { int k = c.choose(left.size()); s.push(c, left[k], false); left.erase(left.begin() + k); }
    int per = c.range(1, 3), pat = c.choose(1 << per);
    for (int i = 0; i < n; ++i) if ((pat >> (i % per)) & 1) s.popTop(c); else s.popBottom(c);
}
MC_FAMILY(sequences_then_drain, "every sequence of 9 pushes over 3 keys (10 over 3 thorough), drained in every order of 4 pops then alternately; thorough tier up to 11", 4) {
    int n = c.tier(8, 10, 11);
    Sys<ByKey> s;
    for (int i = 0; i < n; ++i) s.push(c, c.choose(3), false);
    int pat = c.choose(8);
    for (int i = 0; i < n; ++i) if (((pat >> (i % 3)) & 1)) s.popTop(c); else s.popBottom(c);
}
// Large heaps: structured families, so that deep levels of the tree are reached.
static int gen(int kind, int i, int n) {
    switch (kind) {
        case 0: return i;                       // ascending
        case 1: return n - i;                   // descending
        case 2: return (i * 37) % 101;          // scattered
        case 3: return i % 2 ? i : n - i;       // zig-zag
        case 4: return i % 5;                   // many duplicates
        case 5: return (i * i) % 31;
        case 6: return (i * 17 + 5) % 64;
        case 7: return i < n / 2 ? i : n - i;   // organ pipe
        case 8: return (int)((unsigned)(i * 2654435761u) >> 25);
        case 9: return 7;
        default: return __builtin_popcount(i) * 3 - i % 3;
    }
}
MC_FAMILY(large_heaps, "11 key patterns x sizes 1..40 (1..150 thorough) x all 64 drain/push patterns of period 6; thorough tier up to 300", 2) {
    int kind = c.choose(11), n = c.range(1, c.tier(40, 150, 300)), pat = c.choose(64);
    Sys<ByKey> s;
    DESC(c, "pattern " << kind << " n " << n << " drain " << pat << ": ");
    for (int i = 0; i < n; ++i) s.push(c, gen(kind, i, n), false);
    s.checkAll(c);
    int t = 0;
    while (!s.model.empty()) {
        if ((pat >> (t % 6)) & 1) s.popTop(c); else s.popBottom(c);
        if (t % 3 == 2 && t < 2 * n) s.push(c, gen(kind, t + n, n), false);
        ++t;
    }
}
MC_FAMILY(all_heaps_mod, "every sequence of pushes over 5 keys, length 6 (7), ordered modulo 3, then each single pop and a push; thorough tier up to 8", 3) {
    Sys<ByMod> s;
    int n = c.tier(5, 7, 8);
    for (int i = 0; i < n; ++i) s.push(c, c.choose(5), false);
    if (c.flag()) s.popTop(c); else s.popBottom(c);
    s.push(c, c.choose(5));
    if (c.flag()) s.popTop(c); else s.popBottom(c);
}
// Deep trees: every size around each power of two, checked in logarithmic time per operation.
MC_FAMILY(deep_heaps, "11 key patterns x every size 60..70, 124..132, 252..260, 508..516 and 1020..1028 (also 2044..2052 thorough) x 6 drain patterns, pushes in between", 2) {
    int kind = c.choose(11), lev = c.range(6, c.tier(10, 11)), off = c.range(-4, 4), pat = c.choose(6);
    int n = (1 << lev) + off;
    DESC(c, "pattern " << kind << " n " << n << " drain " << pat << ": ");
    static const int PAT[6] = {0, 63, 21, 1, 62, 38};
    rofl::MinMaxHeap<int> h; std::multiset<int> m;
    auto look = [&]() {
        c.step();
        REQUIRE(c, h.size() == m.size() && h.empty() == m.empty(), "size() = " << h.size() << " expected " << m.size());
        if (m.empty()) return;
        REQUIRE(c, h.top() == *m.begin(), "top() = " << h.top() << " expected " << *m.begin() << " with " << m.size() << " items");
        REQUIRE(c, h.bottom() == *m.rbegin(), "bottom() = " << h.bottom() << " expected " << *m.rbegin() << " with " << m.size() << " items");
    };
    for (int i = 0; i < n; ++i) { int k = kind == 8 ? (int)((unsigned)(i * 2654435761u) >> 16) : gen(kind, i, n); h.push(k); m.insert(k); look(); }
    for (int t = 0; !m.empty(); ++t) {
        if ((PAT[pat] >> (t % 6)) & 1) { h.popTop(); m.erase(m.begin()); } else { h.popBottom(); m.erase(std::prev(m.end())); }
        look();
        if (t % 4 == 3 && t < n) { int k = gen(kind, t * 5 + 1, n); h.push(k); m.insert(k); look(); }
    }
    c.state(mc::mix(mc::mix(kind, n), pat));
}
MC_FAMILY(huge_heaps, "3 key patterns x 32768, 65536, 131072 and 262144 plus -1, 0, 1 and 1000 items, filled and drained from the top, the bottom or alternately", 2) {
    int n = c.pick({32768, 65536, 131072, 262144}) + c.pick({1000, -1, 0, 1}), kind = c.choose(3), pat = c.choose(3);
    DESC(c, "pattern " << kind << " n " << n << " drain " << pat);
    rofl::MinMaxHeap<int> h; std::vector<int> k(n);
    for (int i = 0; i < n; ++i) { k[i] = kind == 0 ? i : kind == 1 ? -i : (int)((long)i * 40503 % 65521); h.push(k[i]); }
    std::sort(k.begin(), k.end());
    size_t lo = 0, hi = n;
    for (; lo < hi;) {
        c.step();
        REQUIRE(c, h.size() == hi - lo, "size() = " << h.size() << " expected " << hi - lo);
        REQUIRE(c, h.top() == k[lo], "top() = " << h.top() << " expected " << k[lo] << " with " << hi - lo << " items");
        REQUIRE(c, h.bottom() == k[hi - 1], "bottom() = " << h.bottom() << " expected " << k[hi - 1] << " with " << hi - lo << " items");
        if (pat == 0 || (pat == 2 && lo % 2 == hi % 2)) { h.popTop(); ++lo; } else { h.popBottom(); --hi; }
    }
    REQUIRE(c, h.empty(), "the heap is not empty after removing everything");
    c.state(mc::mix(mc::mix(kind, n), pat));
}
// Items pushed by reference to an item of the heap itself, and heaps copied and assigned.
template <template <typename, typename> class Cont> static void aliasedIn(Ctx& c) {
    typedef rofl::MinMaxHeap<std::string, std::less<std::string>, Cont> H;
    H h; std::multiset<std::string> m; int n = c.range(1, 18), what = c.choose(4), then = c.choose(5);
    auto name = [](int k) { return std::string(k % 2 ? 40 : 3, (char)('a' + k % 23)); };
    auto same = [&](const H& x, const std::multiset<std::string>& y, const char* w) {
        c.step(); H d(x); std::multiset<std::string> e(y);
        for (int t = 0; !e.empty(); ++t) {
            REQUIRE(c, d.size() == e.size() && d.top() == *e.begin() && d.bottom() == *e.rbegin(), w << ": " << d.size() << " items from " << d.top() << " to " << d.bottom() << ", expected " << e.size() << " from " << *e.begin() << " to " << *e.rbegin());
            if (t % 3 == then % 3) { d.popBottom(); e.erase(std::prev(e.end())); } else { d.popTop(); e.erase(e.begin()); }
        }
        REQUIRE(c, d.empty(), w << ": items left over");
    };
    DESC(c, n << " items, then one of them pushed again, kind " << what << " then " << then);
    for (int i = 0; i < n; ++i) { std::string s = name(i * 7 % 19); h.push(s); m.insert(s); }
    for (int k = 0; k < 20; ++k) {
        const std::string v = what == 0 ? h.top() : what == 1 ? h.bottom() : what == 2 ? *h.begin() : *std::prev(h.end());
        if (what == 0) h.push(h.top()); else if (what == 1) h.push(h.bottom()); else if (what == 2) h.push(*h.begin()); else h.push(*std::prev(h.end()));
        m.insert(v); same(h, m, "after pushing an item of the heap");
    }
    H cp(h), as; as.push("zz"); as = h; std::multiset<std::string> mc_ = m;
    if (then == 0) { cp.popTop(); mc_.erase(mc_.begin()); } else if (then == 1) { cp.popBottom(); mc_.erase(std::prev(mc_.end())); } else if (then == 2) { cp.push("0"); mc_.insert("0"); } else if (then == 3) { while (!cp.empty()) cp.popTop(); mc_.clear(); } else { h = h; cp.push("zzz"); mc_.insert("zzz"); }
    same(h, m, "original after changing a copy"); same(cp, mc_, "copy"); same(as, m, "assigned heap"); c.state(mc::mix(mc::mix(n, what), then));
}
MC_FAMILY(aliased, "heaps of 1..18 strings, the top, the bottom, the first or the last stored item pushed again 20 times by reference; copies and assignment used independently; vector and deque storage", 2) { if (c.flag()) aliasedIn<std::deque>(c); else aliasedIn<std::vector>(c); }
MC_FAMILY(two_heaps, "two heaps alive together: every history of 7 (8) operations on either, push of 2 keys or a pop at either end, the first copied to the second at every point", 2) {
    Sys<ByKey> s[2]; int depth = c.tier(7, 8), at = c.choose(depth + 1);
    for (int d = 0; d < depth; ++d) {
        if (d == at) { DESC(c, "copy "); s[1] = s[0]; s[1].checkAll(c); }
        int i = c.choose(2); Sys<ByKey>& x = s[i]; DESC(c, i << ":"); int op = c.choose(x.model.empty() ? 2 : 4);
        if (op < 2) x.push(c, 2 * op + i); else if (op == 2) x.popTop(c); else x.popBottom(c);
        s[1 - i].checkAll(c);
    }
}
MC_MAIN()
