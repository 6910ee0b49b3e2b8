// C34: diagnostics and printed forms against their expected text.
// QUICK: 1
// LIBS: common
#include <rofl/common/macros.h>
#include <rofl/common/interval_indices.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/morton_tree.h>
#include <rofl/common/label_set.h>
#include <rofl/common/functions.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;

// A value that counts how often it is printed; printed as one of three kinds.
struct V { int k; mutable int n = 0; V(int a = 0) : k(a) {} };
static std::string text(int k) { return k % 3 == 0 ? std::to_string(k) : k % 3 == 1 ? "word" + std::to_string(k) : std::to_string(k) + ".5"; }
static std::ostream& operator<<(std::ostream& o, const V& v) { ++v.n; return o << text(v.k); }
// Runs f with standard output (or error) collected.
template <typename F> static std::string grab(std::ostream& s, F f) { std::ostringstream o; std::streambuf* old = s.rdbuf(o.rdbuf()); try { f(); } catch (...) { s.rdbuf(old); throw; } s.rdbuf(old); return o.str(); }
static std::string prefix(int line) { return "C34.cpp," + std::to_string(line) + ": "; }

MC_FAMILY(variables, "1..7 expressions, every assignment of 3 values to each: one line with the place and each expression with its own value, each evaluated once", 3) {
    int n = c.range(1, 7), calls[8] = {0}; V v[8]; for (int i = 1; i <= n; ++i) v[i].k = 10 * i + c.choose(3);
    V &a = v[1], &b = v[2], &cc = v[3], &d = v[4], &e = v[5], &f = v[6], &g = v[7]; int line = 0;
    auto x = [&](int i) -> const V& { ++calls[i]; return v[i]; };
    bool call = c.flag();
    std::string out = grab(std::cout, [&] {
        if (!call) switch (n) {
            case 1: line = __LINE__; ROFL_VAR1(a); break;
            case 2: line = __LINE__; ROFL_VAR2(a, b); break;
            case 3: line = __LINE__; ROFL_VAR3(a, b, cc); break;
            case 4: line = __LINE__; ROFL_VAR4(a, b, cc, d); break;
            case 5: line = __LINE__; ROFL_VAR5(a, b, cc, d, e); break;
            case 6: line = __LINE__; ROFL_VAR6(a, b, cc, d, e, f); break;
            case 7: line = __LINE__; ROFL_VAR7(a, b, cc, d, e, f, g); break;
        } else switch (n) {
            case 1: line = __LINE__; ROFL_VAR1(x(1)); break;
            case 2: line = __LINE__; ROFL_VAR2(x(1), x(2)); break;
            case 3: line = __LINE__; ROFL_VAR3(x(1), x(2), x(3)); break;
            case 4: line = __LINE__; ROFL_VAR4(x(1), x(2), x(3), x(4)); break;
            case 5: line = __LINE__; ROFL_VAR5(x(1), x(2), x(3), x(4), x(5)); break;
            case 6: line = __LINE__; ROFL_VAR6(x(1), x(2), x(3), x(4), x(5), x(6)); break;
            case 7: line = __LINE__; ROFL_VAR7(x(1), x(2), x(3), x(4), x(5), x(6), x(7)); break;
        }
    });
    c.step();
    static const char* N[8] = {"", "a", "b", "cc", "d", "e", "f", "g"};
    std::string e0 = prefix(line); u64 h = n;
    for (int i = 1; i <= n; ++i) { e0 += (i > 1 ? ", " : "") + (call ? "x(" + std::to_string(i) + ")" : std::string(N[i])) + " " + text(v[i].k); h = mc::mix(h, v[i].k); }
    c.state(h);
    REQUIRE(c, out == e0 + "\n", n << " expressions are printed as \"" << out << "\" instead of \"" << e0 << "\"");
    for (int i = 1; i <= n; ++i) REQUIRE(c, v[i].n == 1 && (!call || calls[i] == 1), "expression " << i << " of " << n << " is evaluated " << calls[i] << " times and printed " << v[i].n << " times");
}
MC_FAMILY(expressions, "expressions with operators of low precedence, all values of three operands in 0..3", 1) {
    int a = c.choose(4), b = c.choose(4), d = c.choose(4), line = 0; DESC(c, a << " " << b << " " << d);
    std::string out = grab(std::cout, [&] { line = __LINE__; ROFL_VAR4(a | b, a == b, a && d, a ? b : d); });
    std::ostringstream e; e << prefix(line) << "a | b " << (a | b) << ", a == b " << (a == b) << ", a && d " << (a && d) << ", a ? b : d " << (a ? b : d) << "\n";
    c.step(); c.state(mc::mix(mc::mix(a, b), d));
    REQUIRE(c, out == e.str(), "printed \"" << out << "\" instead of \"" << e.str() << "\"");
    out = grab(std::cout, [&] { line = __LINE__; ROFL_VAR1(a ^ b); });
    e.str(""); e << prefix(line) << "a ^ b " << (a ^ b) << "\n";
    REQUIRE(c, out == e.str(), "printed \"" << out << "\" instead of \"" << e.str() << "\"");
    std::string err, msg; out = "";
    err = grab(std::cerr, [&] { out = grab(std::cout, [&] { line = __LINE__; ROFL_MSG("text " << a << " and " << d); }); });
    REQUIRE(c, out == prefix(line) + "text " + std::to_string(a) + " and " + std::to_string(d) + "\n" && err.empty(), "a message is printed as \"" << out << "\", and \"" << err << "\" on standard error");
    err = grab(std::cerr, [&] { out = grab(std::cout, [&] { line = __LINE__; ROFL_ERR("text " << a << " and " << d); }); });
    REQUIRE(c, err == prefix(line) + "text " + std::to_string(a) + " and " + std::to_string(d) + "\n" && out.empty(), "an error is printed as \"" << err << "\", and \"" << out << "\" on standard output");
}
// The assertion runs in a child process whose two outputs are collected.
struct FdBuf : std::streambuf {
    int fd; FdBuf(int f) : fd(f) {}
    int overflow(int ch) override { char x = ch; return ::write(fd, &x, 1) == 1 ? ch : -1; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { return ::write(fd, s, n); }
};
struct Ended { int status; std::string out, err; };
template <typename F> static Ended child(F f) {
    int o[2], e[2]; if (pipe(o) || pipe(e)) abort();
    pid_t p = fork();
    if (p == 0) { dup2(o[1], 1); dup2(e[1], 2); close(o[0]); close(e[0]); close(o[1]); close(e[1]); static FdBuf fo(1), fe(2); std::cout.clear(); std::cerr.clear(); std::cout.rdbuf(&fo); std::cerr.rdbuf(&fe); f(); std::cout.flush(); std::cerr.flush(); _exit(0); }
    close(o[1]); close(e[1]); Ended r; char buf[512]; ssize_t n;
    while ((n = read(o[0], buf, sizeof(buf))) > 0) r.out.append(buf, n);
    while ((n = read(e[0], buf, sizeof(buf))) > 0) r.err.append(buf, n);
    close(o[0]); close(e[0]); waitpid(p, &r.status, 0); return r;
}
MC_FAMILY(assertions, "assertions with 0..5 variables, 3 conditions over all values of two operands in 0..2, 3 values for the first variable: they stop the program with a failure status exactly when the condition is false, after writing it and every variable; otherwise no effect at all", 3) {
    int n = c.choose(6), form = c.choose(3), a = c.choose(3), b = c.choose(3), evals = 0, line = 0; V v[6]; for (int i = 1; i < 6; ++i) v[i].k = 10 * i; if (n) v[1].k += c.choose(3);
    V &v1 = v[1], &v2 = v[2], &v3 = v[3], &v4 = v[4], &v5 = v[5];
    auto count = [&](bool t) { ++evals; return t; };
    DESC(c, n << " variables, condition " << form << " with " << a << " " << b);
    bool holds = form == 0 ? a == b : form == 1 ? a || b : a < b;
    int after = 0;
    auto body = [&] {
        switch (n * 3 + form) {
            case 0: line = __LINE__; ROFL_ASSERT(a == b); break;
            case 1: line = __LINE__; ROFL_ASSERT(a || b); break;
            case 2: line = __LINE__; ROFL_ASSERT(count(a < b)); break;
            case 3: line = __LINE__; ROFL_ASSERT_VAR1(a == b, v1); break;
            case 4: line = __LINE__; ROFL_ASSERT_VAR1(a || b, v1); break;
            case 5: line = __LINE__; ROFL_ASSERT_VAR1(count(a < b), v1); break;
            case 6: line = __LINE__; ROFL_ASSERT_VAR2(a == b, v1, v2); break;
            case 7: line = __LINE__; ROFL_ASSERT_VAR2(a || b, v1, v2); break;
            case 8: line = __LINE__; ROFL_ASSERT_VAR2(count(a < b), v1, v2); break;
            case 9: line = __LINE__; ROFL_ASSERT_VAR3(a == b, v1, v2, v3); break;
            case 10: line = __LINE__; ROFL_ASSERT_VAR3(a || b, v1, v2, v3); break;
            case 11: line = __LINE__; ROFL_ASSERT_VAR3(count(a < b), v1, v2, v3); break;
            case 12: line = __LINE__; ROFL_ASSERT_VAR4(a == b, v1, v2, v3, v4); break;
            case 13: line = __LINE__; ROFL_ASSERT_VAR4(a || b, v1, v2, v3, v4); break;
            case 14: line = __LINE__; ROFL_ASSERT_VAR4(count(a < b), v1, v2, v3, v4); break;
            case 15: line = __LINE__; ROFL_ASSERT_VAR5(a == b, v1, v2, v3, v4, v5); break;
            case 16: line = __LINE__; ROFL_ASSERT_VAR5(a || b, v1, v2, v3, v4, v5); break;
            case 17: line = __LINE__; ROFL_ASSERT_VAR5(count(a < b), v1, v2, v3, v4, v5); break;
        }
        after = 1;
        std::cout << "after line " << line << " evaluations " << evals << std::endl;
    };
    Ended r = child(body); c.step(); c.state(mc::mix(mc::mix(n * 3 + form, a * 3 + b), v[1].k));
    std::string cond = form == 0 ? "a == b" : form == 1 ? "a || b" : "count(a < b)";
    if (holds) {
        std::string out = grab(std::cout, body);  // cannot stop: it did not in the child
        REQUIRE(c, WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "an assertion that holds ends the program: " << r.err);
        REQUIRE(c, r.out == out && r.err.empty(), "an assertion that holds writes \"" << r.err << "\" and \"" << r.out << "\"");
        REQUIRE(c, evals == (form == 2 ? 1 : 0), "the condition is evaluated " << evals << " times");
        for (int i = 1; i < 6; ++i) REQUIRE(c, v[i].n == 0, "an assertion that holds prints variable " << i);
    } else {
        REQUIRE(c, !(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0), "a failed assertion ends the program with success");
        REQUIRE(c, r.out.find("after") == std::string::npos, "the program goes on after a failed assertion");
        REQUIRE(c, r.err.find("C34.cpp,") != std::string::npos && r.err.find(cond) != std::string::npos, "a failed assertion writes \"" << r.err << "\" without the place and the condition");
        size_t at = 0; std::string all = r.out + r.err;
        for (int i = 1; i <= n; ++i) { std::string w = "v" + std::to_string(i) + " " + text(v[i].k); size_t p = all.find(w, at); REQUIRE(c, p != std::string::npos, "a failed assertion does not report \"" << w << "\" but \"" << all << "\""); at = p + 1; }
    }
}
template <size_t D, typename I> static void interval(Ctx& c, int lo, int hi) {
    std::array<I, D> mn, dm; std::string e = "[", q = "[";
    for (size_t d = 0; d < D; ++d) { mn[d] = c.range(-2, 2); dm[d] = c.range(lo, hi); e += (d ? "," : "") + std::to_string((long)mn[d]) + ":" + std::to_string((long)mn[d] + (long)dm[d] - 1); q += (d ? "," : "") + std::to_string((long)mn[d]); }
    rofl::IntervalIndices<D, I> b(mn, dm); std::ostringstream o, p; o << b; b.print(p); c.step(); DESC(c, e << "] "); c.state(mc::mix(D, std::hash<std::string>()(e)));
    REQUIRE(c, o.str() == e + "]" && p.str() == e + "]", "interval " << e << "] is printed as " << o.str());
    REQUIRE(c, rofl::outIdx(mn) == q + "]", "indices " << q << "] are printed as " << rofl::outIdx(mn));
}
MC_FAMILY(intervals, "boxes in 1 to 3 dimensions, origins -2..2, sides 1..4: printed bounds and indices; int, long and short indices", 3) { switch (c.choose(4)) { case 0: interval<1, int>(c, 1, 4); break; case 1: interval<2, int>(c, 1, 3); break; case 2: interval<3, long>(c, 1, 2); break; default: interval<2, short>(c, 1, 2); } }
MC_FAMILY(labels, "every set of labels in 0..6 shifted by 3 offsets: printed in increasing order", 1) {
    int off = c.pick({0, -3, 100000}); unsigned m = c.subset(7); rofl::LabelSet l; std::vector<std::string> w; for (int i = 6; i >= 0; --i) if (m >> i & 1) l.insert(i + off); for (int i = 0; i < 7; ++i) if (m >> i & 1) w.push_back(std::to_string(i + off));
    std::ostringstream o, p; o << l; l.print(p); c.step(); c.state(mc::mix(m, off)); DESC(c, "subset " << m << " offset " << off);
    REQUIRE(c, o.str() == p.str(), "the operator prints " << o.str() << ", the method " << p.str());
    std::istringstream in(o.str()); std::vector<std::string> g; std::string s = o.str(), t; for (char& ch : s) if (!isdigit(ch) && ch != '-') ch = ' '; std::istringstream is(s); while (is >> t) g.push_back(t);
    REQUIRE(c, g == w, "the set with " << w.size() << " labels is printed as " << o.str());
}
MC_FAMILY(heaps, "every sequence of up to 7 pushes over 3 keys: the printed heap lists the stored items in order with their positions, a new line per level", 3) {
    int n = c.choose(8); rofl::MinMaxHeap<int> h; u64 k = n; for (int i = 0; i < n; ++i) { int x = 5 + 3 * c.choose(3); h.push(x); k = mc::mix(k, x); }
    std::ostringstream o, e; h.print(o); c.step(); c.state(k);
    int i = 0, l = 0; e << "\nlevel 0: "; for (auto it = h.begin(); it != h.end(); ++it, ++i) { int lv = 31 - __builtin_clz(i + 1); if (lv > l) { l = lv; e << "\nlevel " << l << ": "; } e << *it << " [" << i << "], "; } e << "\n";
    REQUIRE(c, o.str() == e.str(), "heap of " << n << " items printed as " << o.str() << " instead of " << e.str());
}
MC_FAMILY(morton_items, "items with every vector over 4 values in 2 and 3 dimensions, 3 identifiers, int and double: printed values and identifier", 2) {
    int kind = c.choose(2), id = c.pick({-1, 0, 12345}); static const int X[4] = {0, -7, 3, 1000000}; int a = X[c.choose(4)], b = X[c.choose(4)], d = X[c.choose(4)]; std::ostringstream o, e; std::string t;
    if (kind == 0) { rofl::MortonTree3i::Item i({a, b, d}, id); i.print(o); t = i.toString(); e << "[" << a << "," << b << "," << d << "](id " << id << ")"; }
    else { rofl::MortonTree2d::Item i({a / 4.0, b / 8.0}, id); i.print(o); t = i.toString(); e << "[" << a / 4.0 << "," << b / 8.0 << "](id " << id << ")"; }
    c.step(); c.state(mc::mix(std::hash<std::string>()(e.str()), id));
    REQUIRE(c, o.str() == e.str() && t == e.str(), "item printed as " << o.str() << " and " << t << " instead of " << e.str());
}
MC_FAMILY(tables, "tables of scaled Bessel functions: orders 0..4, 3 tolerances, 1..20 rows asked, 0..5 columns: every row holds a tabulated argument, increasing, with its values; the first and the last point are there", 2) {
    int ord = c.choose(5), n = c.range(1, 20), k = c.choose(6); double tol = c.pick({0.5, 0.1, 0.02}); DESC(c, "order " << ord << " tolerance " << tol << " rows " << n << " columns " << k);
    rofl::PnebiLUT t(ord, tol); std::ostringstream o; t.printLUT(o, n, k); std::istringstream in(o.str()); std::string l; double last = -1, x = -1; int rows = 0, cols = std::min(k, ord) + 1;
    c.state(mc::mix(mc::mix(ord, n), mc::mix(k, tol * 1000)));
    while (std::getline(in, l)) {
        std::istringstream is(l); int i; double y; c.step();
        REQUIRE(c, bool(is >> i >> x), "row \"" << l << "\""); REQUIRE(c, rows == 0 ? x == 0 && i == 0 : x >= last, "row " << rows << " is for argument " << x << " after " << last);
        for (int j = 0; j < cols; ++j) { REQUIRE(c, bool(is >> y), "row \"" << l << "\" has less than " << cols << " values"); double e = t.eval(j, x); REQUIRE(c, std::fabs(y - e) <= 2e-3 * tol + 1e-4 * std::fabs(e) + 1e-9, "row for argument " << x << " has value " << y << " at order " << j << ", the table gives " << e); }
        REQUIRE(c, !(is >> y), "row \"" << l << "\" has more than " << cols << " values"); last = x; ++rows;
    }
    REQUIRE(c, rows >= 2, "only " << rows << " rows");
    std::vector<double> a, b; t.eval(x, a); t.eval(x * 50 + 100, b); REQUIRE(c, std::fabs(a[0] - b[0]) < 1e-5, "the last row is not the last point of the table");
}
MC_FAMILY(long_prints, "sets of 8..5000 labels with gaps and negative ones, heaps of 8..5000 items, boxes with bounds next to the ends of the type, items in 1 to 9 dimensions, messages and values of up to 20000 characters", 2) {
    int n = c.pick({8, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 5000}), k = c.choose(5); DESC(c, "kind " << k << " size " << n); c.step(); c.state(mc::mix(k, n));
    if (k == 0) {
        rofl::LabelSet l; std::vector<std::string> w, g; for (int i = n - 1; i >= 0; --i) l.insert((i - n / 3) * 7); for (int i = 0; i < n; ++i) w.push_back(std::to_string((i - n / 3) * 7));
        std::ostringstream o, p; o << l; l.print(p); REQUIRE(c, o.str() == p.str(), "the operator and the method print differently"); std::string s = o.str(), t; for (char& ch : s) if (!isdigit(ch) && ch != '-') ch = ' '; std::istringstream is(s); while (is >> t) g.push_back(t);
        REQUIRE(c, g == w, "the set with " << w.size() << " labels is printed with " << g.size() << ": " << o.str().substr(0, 300));
    } else if (k == 1) {
        rofl::MinMaxHeap<int> h; for (int i = 0; i < n; ++i) h.push((i * 7919) % 1009 - 500); std::ostringstream o, e; h.print(o);
        int i = 0, l = 0; e << "\nlevel 0: "; for (auto it = h.begin(); it != h.end(); ++it, ++i) { int lv = 31 - __builtin_clz(i + 1); if (lv > l) { l = lv; e << "\nlevel " << l << ": "; } e << *it << " [" << i << "], "; } e << "\n";
        REQUIRE(c, o.str() == e.str(), "heap of " << n << " items printed as " << o.str().substr(0, 300) << "...");
    } else if (k == 2) {
        std::array<long, 2> mn{(1L << 62) - n, -(1L << 62) + n}, dm{n, 2L * n}; std::array<int, 2> m2{2147483647 - n, -2147483647}, d2{n, n}; rofl::IntervalIndices<2, long> a(mn, dm); rofl::IntervalIndices<2, int> b(m2, d2); std::ostringstream o, e;
        o << a << b; e << "[" << mn[0] << ":" << mn[0] + n - 1 << "," << mn[1] << ":" << mn[1] + 2 * n - 1 << "][" << m2[0] << ":" << m2[0] + n - 1 << "," << m2[1] << ":" << m2[1] + n - 1 << "]";
        REQUIRE(c, o.str() == e.str(), "intervals " << e.str() << " printed as " << o.str()); std::array<int, 12> q; std::string w = "["; for (int i = 0; i < 12; ++i) { q[i] = (i % 2 ? -1 : 1) * n * i * 1000; w += (i ? "," : "") + std::to_string(q[i]); } REQUIRE(c, rofl::outIdx(q) == w + "]", "indices " << w << "] printed as " << rofl::outIdx(q));
    } else if (k == 3) {
        rofl::MortonTree<int, 1>::Item i1({n}, n * 100000); rofl::MortonTree<int, 9>::Item i9({n, 1, 2, 3, -n * 1000, 5, 6, 7, 8 * n}, -n); rofl::MortonTree<float, 4>::Item f4({n + 0.5f, 0, -n - 0.25f, 1}, n); std::ostringstream e; e << "[" << n << "](id " << n * 100000 << ")[" << n << ",1,2,3," << -n * 1000 << ",5,6,7," << 8 * n << "](id " << -n << ")[" << n + 0.5f << ",0," << -n - 0.25f << ",1](id " << n << ")";
        std::ostringstream o; i1.print(o); i9.print(o); f4.print(o); REQUIRE(c, o.str() == e.str() && i1.toString() + i9.toString() + f4.toString() == e.str(), "items printed as " << o.str() << " instead of " << e.str());
    } else {
        std::string v(n * 4, 'v'); int w = n * 429000; std::string o = grab(std::cout, [&] { ROFL_VAR2(v, w); }), m = grab(std::cout, [&] { ROFL_MSG("text " << v << " end"); });
        REQUIRE(c, o.find(v) != std::string::npos && o.find(std::to_string(w)) != std::string::npos && std::count(o.begin(), o.end(), '\n') == 1, "a value of " << v.size() << " characters is printed in a line of " << o.size());
        REQUIRE(c, m.find("text " + v + " end") != std::string::npos, "a message of " << v.size() << " characters is printed in a line of " << m.size());
    }
}
MC_MAIN()
