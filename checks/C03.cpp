// C03: disjoint sets against an explicit partition.
// LIBS: common
#include <rofl/common/disjoint_set.h>
#include <iterator>
#include <set>
#include "mc.h"
using mc::Ctx;
using mc::u64;
using rofl::DisjointSet;

struct Sys {
    DisjointSet d;
    std::vector<int> cls;  // class label per node
    void check(Ctx& c) {
        c.step();
        DisjointSet q(d);  // queries compress paths: ask a copy
        int n = cls.size();
        REQUIRE(c, (int)q.nodeNum() == n && (int)q.size() == n, "node count " << q.nodeNum() << " expected " << n);
        std::set<int> classes(cls.begin(), cls.end());
        REQUIRE(c, q.setNum() == (int)classes.size(), "setNum() = " << q.setNum() << " but there are " << classes.size() << " sets");
        std::vector<int> rep(n);
        for (int i = 0; i < n; ++i) {
            rep[i] = q.find(i);
            REQUIRE(c, rep[i] >= 0 && rep[i] < n, "find(" << i << ") = " << rep[i]);
            REQUIRE(c, cls[rep[i]] == cls[i], "find(" << i << ") = " << rep[i] << " which is in another set");
        }
        u64 k = n;
        for (int i = 0; i < n; ++i) {
            int sz = 0;
            for (int j = 0; j < n; ++j) {
                bool same = cls[i] == cls[j];
                REQUIRE(c, (rep[i] == rep[j]) == same, "nodes " << i << " and " << j << (same ? " were joined but" : " were never joined but") << " have representatives " << rep[i] << " and " << rep[j]);
                sz += same;
            }
            REQUIRE(c, (int)q.size(i) == sz, "size(" << i << ") = " << q.size(i) << " expected " << sz);
            REQUIRE(c, q.find(i) == rep[i], "find(" << i << ") changed from " << rep[i] << " without a join");
            k = mc::mix(k, rep[i]);
        }
        c.state(k);
        DisjointSet back(d), fresh(d);  // the answers do not depend on the order of the questions
        for (int i = n - 1; i >= 0; --i) REQUIRE(c, back.find(i) == rep[i], "find(" << i << ") = " << back.find(i) << " when the nodes are asked from the last one, expected " << rep[i]);
        std::vector<int> par, par0;
        fresh.parents(std::back_inserter(par0));
        REQUIRE(c, std::set<int>(par0.begin(), par0.end()) == std::set<int>(rep.begin(), rep.end()) && par0.size() == classes.size(), "parents() lists " << par0.size() << " representatives before any find, expected " << classes.size());
        q.parents(std::back_inserter(par));
        std::set<int> ps(par.begin(), par.end()), rs(rep.begin(), rep.end());
        REQUIRE(c, ps == rs && par.size() == ps.size(), "parents() does not list one representative per set");
    }
    void init(Ctx& c, int n) { DESC(c, "init(" << n << ") "); d.initSets(n); cls.resize(n); for (int i = 0; i < n; ++i) cls[i] = i; check(c); }
    void make(Ctx& c) {
        DESC(c, "makeSet ");
        int id = d.makeSet();
        REQUIRE(c, id == (int)cls.size(), "makeSet() = " << id << " is not the next id");
        int m = 0; for (int x : cls) m = std::max(m, x + 1);
        cls.push_back(m); check(c);
    }
    void join(Ctx& c, int a, int b, bool chk = true) {
        DESC(c, "join(" << a << "," << b << ") ");
        int r = d.join(a, b);
        int n = cls.size();
        bool valid = a >= 0 && a < n && b >= 0 && b < n;
        if (valid && cls[a] != cls[b]) {
            int from = cls[b], to = cls[a];
            for (int& x : cls) if (x == from) x = to;
            DisjointSet q(d);
            REQUIRE(c, r == q.find(a) && r == q.find(b), "join returned " << r << " which is not the representative of the joined set");
        }
        if (chk) check(c);
    }
    void find(Ctx& c, int a) { DESC(c, "find(" << a << ") "); d.find(a); check(c); }
};

MC_FAMILY(histories, "initial 0..3 nodes or a default constructed object, then every history of makeSet / join(i,j) all ordered pairs / find(i) of length 4 (5 thorough), at most 4 nodes", 3) {
    Sys s; int init = c.choose(5);
    if (init < 4) s.init(c, init); else s.check(c);  // as default constructed
    int depth = c.tier(4, 5);
    for (int k = 0; k < depth; ++k) {
        int n = s.cls.size();
        int mk = n < 4 ? 1 : 0;
        if (mk + n * n + n == 0) return;
        int op = c.choose(mk + n * n + n);
        if (op < mk) s.make(c);
        else if ((op -= mk) < n * n) s.join(c, op / n, op % n);
        else s.find(c, op - n * n);
    }
}
MC_FAMILY(join_orders, "6 nodes (constructor), every sequence of 4 (5 thorough) joins of distinct nodes, each followed or not by a find of the last node", 2) {
    Sys s;
    int n = 6;
    s.d = DisjointSet(n); s.cls.resize(n); for (int i = 0; i < n; ++i) s.cls[i] = i;
    s.check(c);
    int len = c.tier(3, 4);
    for (int k = 0; k < len; ++k) {
        int p = c.choose(n * (n - 1)), a = p / (n - 1), b = p % (n - 1);
        if (b >= a) ++b;
        s.join(c, a, b, k + 1 == len);
        if (k + 1 < len && c.flag()) s.find(c, n - 1);
    }
}
MC_FAMILY(merge_trees, "2..4 (5 thorough) levels of balanced merges (up to 16, 32 nodes), every choice of orientation and of the member used per level, optional finds in between; thorough tier up to 6", 3) {
    int lev = c.range(2, c.tier(4, 5, 6)), n = 1 << lev;
    Sys s; s.init(c, n);
    for (int l = 0; l < lev; ++l) {
        int o = c.choose(2), mem = c.choose(3), fnd = c.choose(2);
        int half = 1 << l;
        for (int b = 0; b < n; b += 2 * half) {
            int off = mem == 0 ? 0 : mem == 1 ? half - 1 : half / 2;
            int x = b + off, y = b + half + off;
            if (o) std::swap(x, y);
            s.join(c, x, y, false);
        }
        s.check(c);
        if (fnd) for (int i = 0; i < n; i += 3) { s.d.find(i); c.step(); }
        s.check(c);
    }
}
MC_FAMILY(deep_merges, "5..9 (12) levels of balanced merges (up to 4096 nodes) without any find in between, 4 orientation patterns, joined through the first or last members, asked in ascending, descending or bit-reversed order", 2) {
    int lev = c.range(5, c.tier(9, 12)), n = 1 << lev, o = c.choose(4), mem = c.choose(2), ord = c.choose(3), stop = c.choose(2);
    DESC(c, lev << " levels, orientation " << o << ", members " << mem << ", order " << ord << ", stop " << stop);
    DisjointSet d(n); int last = lev - stop;
    for (int l = 0; l < last; ++l) for (int b = 0, h = 1 << l, w = 0; b < n; b += 2 * h, ++w) {
        int x = b + (mem ? h - 1 : 0), y = b + h + (mem ? h - 1 : 0); bool sw = o == 1 || (o == 2 && l % 2) || (o == 3 && w % 2);
        c.step(); int r = sw ? d.join(y, x) : d.join(x, y);
        REQUIRE(c, r >= b && r < b + 2 * h, "join returned " << r);
    }
    REQUIRE(c, d.setNum() == (n >> last), "setNum() = " << d.setNum() << " expected " << (n >> last));
    std::vector<int> rep(n >> last, -1);
    for (int k = 0; k < n; ++k) {
        int i = ord == 0 ? k : n - 1 - k; if (ord == 2) { i = 0; for (int b = 0; b < lev; ++b) if (k >> b & 1) i |= 1 << (lev - 1 - b); }
        c.step(); int r = d.find(i), &e = rep[i >> last]; if (e < 0) e = r;
        REQUIRE(c, r == e && (r >> last) == (i >> last), "find(" << i << ") = " << r << " but another node of its set has representative " << e);
        REQUIRE(c, (int)d.size(i) == 1 << last, "size(" << i << ") = " << d.size(i) << " expected " << (1 << last));
    }
    u64 k = mc::mix(n, o); for (int r : rep) k = mc::mix(k, r); c.state(k);
}
MC_FAMILY(unbalanced, "chains, stars and two-block merges over 3..20 (3..64) nodes, both orientations; thorough tier up to 128", 1) {
    int n = c.range(3, c.tier(20, 64, 128)), shape = c.choose(5), o = c.choose(2), cut = c.choose(3);
    Sys s; s.init(c, n);
    DESC(c, "n " << n << " shape " << shape << " ");
    auto j = [&](int a, int b) { if (o) std::swap(a, b); s.join(c, a, b, true); };
    int h = cut == 0 ? 1 : cut == 1 ? n / 2 : n - 1;
    switch (shape) {
        case 0: for (int i = 1; i < n; ++i) j(i - 1, i); break;
        case 1: for (int i = 1; i < n; ++i) j(0, i); break;
        case 2: for (int i = n - 1; i > 0; --i) j(i - 1, i); break;
        case 3: for (int i = 1; i < h; ++i) j(i - 1, i); for (int i = h + 1; i < n; ++i) j(i - 1, i); j(0, n - 1); break;
        default: for (int i = 0; i + h < n; ++i) j(i, i + h); break;
    }
    // re-initialisation forgets everything
    s.init(c, 1 + n / 2);
    s.make(c);
    s.join(c, 0, s.cls.size() - 1);
}
MC_FAMILY(invalid_ids, "0..3 nodes after 0..2 joins, every call with at least one id in {-2,-1,n,n+1}", 2) {
    Sys s; s.init(c, c.choose(4));
    int n = s.cls.size();
    for (int k = c.choose(3); k > 0 && n > 0; --k) s.join(c, c.choose(n), c.choose(n));
    std::vector<int> bad{-2, -1, n, n + 1};
    int b = c.pick(bad);
    int what = c.choose(4);
    DESC(c, "bad id " << b << " ");
    if (what == 0) REQUIRE(c, s.d.find(b) == n, "find of an unknown id is " << s.d.find(b) << " expected the node count");
    if (what == 1) REQUIRE(c, s.d.size(b) == 0, "size of an unknown id is " << s.d.size(b));
    if (what >= 2) {
        int other = c.choose(n + 1);
        int o = other < n ? other : c.pick(bad);
        if (what == 2) s.join(c, b, o); else s.join(c, o, b);
    }
    s.check(c);
}
// Two sets of any pair of ranks, joined through every pair of members.
MC_FAMILY(rank_pairs, "two sets built by balanced merges of 1, 2, 4 or 8 nodes plus 0..2 extra leaves each, with or without path compression, joined through every pair of members in both orders, then once more with a third node", 3) {
    int r1 = c.choose(4), r2 = c.choose(4), e1 = c.choose(3), e2 = c.choose(3), cmpr = c.choose(2);
    int n1 = (1 << r1) + e1, n2 = (1 << r2) + e2, n = n1 + n2 + 1;
    Sys s; s.init(c, n);
    auto build = [&](int b, int r, int e) {
        for (int h = 1; h < (1 << r); h *= 2) for (int i = 0; i < (1 << r); i += 2 * h) s.join(c, b + i, b + i + h, false);
        for (int i = 0; i < e; ++i) s.join(c, b + (1 << r) + i, b + (1 << r) - 1, false);
    };
    build(0, r1, e1); build(n1, r2, e2);
    if (cmpr) for (int i = 0; i < n; ++i) s.d.find(i);
    int x = c.choose(n1), y = n1 + c.choose(n2);
    if (c.flag()) std::swap(x, y);
    s.join(c, x, y);
    int z = c.choose(3);
    if (c.flag()) s.join(c, n - 1, z == 0 ? x : z == 1 ? y : 0); else s.join(c, z == 0 ? x : z == 1 ? y : n1, n - 1);
}
MC_FAMILY(scale, "255..258, 1000, 65535..65538 and 70000 nodes (made at once or one by one): joined in a chain, a star, by remainders modulo 3 or 300, halves or in pairs, in both orders; then one more node and one more join", 2) {
    int n = c.pick({255, 256, 257, 258, 1000, 65535, 65536, 65537, 65538, 70000}), pat = c.choose(6); bool rev = c.flag(), single = c.flag();
    DESC(c, n << " nodes, joins " << pat << (rev ? " reversed" : "") << (single ? ", made one by one" : ""));
    DisjointSet d;
    if (single) for (int i = 0; i < n; ++i) REQUIRE(c, d.makeSet() == i, "makeSet() does not return the next id " << i); else d.initSets(n);
    std::vector<int> cls(n);  // expected class of a node
    auto join = [&](int a, int b) { c.step(); if (rev) std::swap(a, b); d.join(a, b); };
    for (int i = 0; i < n; ++i) {
        if (pat == 0) { cls[i] = 0; if (i) join(i - 1, i); }
        else if (pat == 1) { cls[i] = 0; if (i) join(n - 1, n - 1 - i); }
        else if (pat == 2 || pat == 3) { int q = pat == 2 ? 3 : 300; cls[i] = i % q; if (i >= q) join(i, i - q); }
        else if (pat == 4) { cls[i] = i < n / 2; if (i && i != n / 2) join(i, i < n / 2 ? 0 : n / 2); }
        else { cls[i] = i / 2; if (i % 2) join(i - 1, i); }
    }
    for (int pass = 0; pass < 2; ++pass) {
        std::vector<int> repOf(n + 2, -1), size(n + 2, 0); int sets = 0;
        int N = cls.size();
        for (int i = 0; i < N; ++i) if (!size[cls[i]]++) ++sets;
        REQUIRE(c, d.setNum() == sets && (int)d.nodeNum() == N && (int)d.size() == N, d.nodeNum() << " nodes in " << d.setNum() << " sets, expected " << N << " in " << sets);
        std::set<int> reps;
        for (int i = 0; i < N; ++i) {
            int r = d.find(i);
            REQUIRE(c, r >= 0 && r < N && cls[r] == cls[i], "find(" << i << ") = " << r << " which is not in its set");
            if (repOf[cls[i]] < 0) { repOf[cls[i]] = r; reps.insert(r); }
            REQUIRE(c, repOf[cls[i]] == r, "find(" << i << ") = " << r << " but another node of the set has representative " << repOf[cls[i]]);
            REQUIRE(c, (int)d.size(i) == size[cls[i]], "size(" << i << ") = " << d.size(i) << " expected " << size[cls[i]]);
        }
        std::vector<int> par; d.parents(std::back_inserter(par));
        REQUIRE(c, par.size() == reps.size() && std::set<int>(par.begin(), par.end()) == reps, "parents() lists " << par.size() << " representatives, expected " << reps.size());
        if (pass == 0) { REQUIRE(c, d.makeSet() == N, "makeSet() after " << N << " nodes is not " << N); cls.push_back(n + 1); join(N, N - 1); for (int& x : cls) if (x == n + 1) x = cls[N - 1]; }
    }
    c.state(mc::mix(n, pat * 4 + rev * 2 + single));
}
MC_FAMILY(two_partitions, "two partitions of 3 and 4 nodes alive together: every history of 4 (5) operations on either: join of an ordered pair, find, makeSet, copy over the other", 2) {
    Sys s[2]; s[0].init(c, 3); s[1].init(c, 4); int depth = c.tier(4, 5);
    for (int k = 0; k < depth; ++k) {
        int i = c.choose(2), n = s[i].cls.size(); DESC(c, i << ":"); int op = c.choose(n * (n - 1) + (n < 4) + 2); Sys& x = s[i];
        if (op < n * (n - 1)) { int a = op / (n - 1), b = op % (n - 1); x.join(c, a, b + (b >= a)); }
        else if (op == n * (n - 1)) x.find(c, n - 1);
        else if (op == n * (n - 1) + 1) { DESC(c, "copy "); x = s[1 - i]; x.check(c); }
        else x.make(c);
        s[1 - i].check(c);
    }
}
MC_MAIN()
