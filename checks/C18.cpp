// C18: profiler statistics and scoped timers under a virtual clock.
// QUICK: 1
// LIBS: common
// The clocks of the library are replaced by scripted ones.  The wall clock jumps on its own.
#include "vclock.h"
static const bool jumps = (vwallStep = -977000, vwall = 4000000000000000000, true);
#include <rofl/common/profiler.h>
#include <map>
#include <memory>
#include <iomanip>
#include "mc.h"
using mc::Ctx;
using mc::u64;

struct Prof : rofl::Profiler { Prof() : rofl::Profiler() {} ~Prof() {} };
struct Line { double avg, var, mn, mx; long n; int times = 0; };
static std::map<std::string, Line> report(Ctx& c, const rofl::Profiler& p, const std::string& only = "") {
    std::ostringstream o; o.precision(17);
    p.printStats(o);
    std::map<std::string, Line> r;
    std::istringstream in(o.str()); std::string s;
    while (std::getline(in, s)) {
        if (s.compare(0, only.size(), only) != 0) continue;
        std::istringstream f(s); std::string lab; Line l;
        REQUIRE(c, bool(f >> lab >> l.avg >> l.var >> l.mn >> l.mx >> l.n), "report line \"" << s << "\"");
        int t = r.count(lab) ? r[lab].times : 0; r[lab] = l; r[lab].times = t + 1;
    }
    return r;
}
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
typedef std::map<std::string, std::vector<double>> M;
static void compare(Ctx& c, const std::map<std::string, Line>& r, const M& m) {
    c.step();
    u64 h = 5;
    REQUIRE(c, r.size() == m.size(), "the report has " << r.size() << " labels, expected " << m.size());
    for (auto& kv : m) {
        auto it = r.find(kv.first);
        REQUIRE(c, it != r.end() && it->second.times == 1, "label " << kv.first << " reported " << (it == r.end() ? 0 : it->second.times) << " times");
        const Line& l = it->second; auto& v = kv.second;
        double s = 0, q = 0, mn = v[0], mx = v[0];
        for (double x : v) { s += x; mn = std::min(mn, x); mx = std::max(mx, x); h = mc::mix(h, (u64)(long)(x * 16)); }
        s /= v.size();
        for (double x : v) q += (x - s) * (x - s);
        q = v.size() > 1 ? q / (v.size() - 1) : 0;
        REQUIRE(c, l.n == (long)v.size(), kv.first << ": count " << l.n << " expected " << v.size());
        REQUIRE(c, near(l.avg, s), kv.first << ": mean " << l.avg << " expected " << s << " after " << v.size() << " measures");
        REQUIRE(c, near(l.var, q), kv.first << ": variance " << l.var << " expected " << q << " after " << v.size() << " measures");
        REQUIRE(c, near(l.mn, mn) && near(l.mx, mx), kv.first << ": range " << l.mn << ".." << l.mx << " expected " << mn << ".." << mx);
        h = mc::mix(h, v.size());
    }
    c.state(h);
}
MC_FAMILY(measures, "every sequence of up to 6 (7) measures over {0, 1, 0.25, -3, 1000}, compared after every measure; thorough tier up to 8", 2) {
    static const std::vector<double> V{1, 0, 0.25, -3, 1000};
    Prof p; M m;
    compare(c, report(c, p), m);
    int n = c.range(1, c.tier(6, 7, 8));
    for (int i = 0; i < n; ++i) { double x = c.pick(V); DESC(c, x << " "); p.updateStat("lab", x); m["lab"].push_back(x); compare(c, report(c, p), m); }
}
MC_FAMILY(labels, "every sequence of 5 (6) measures over 3 labels (one a prefix of another) and 3 values; thorough tier up to 7", 2) {
    static const char* L[3] = {"a", "ab", "b"}; static const double V[3] = {2, 5, -1};
    Prof p; M m;
    int n = c.tier(5, 6, 7);
    for (int i = 0; i < n; ++i) { int l = c.choose(3), k = c.choose(3); DESC(c, L[l] << ":" << V[k] << " "); p.updateStat(L[l], V[k]); m[L[l]].push_back(V[k]); }
    compare(c, report(c, p), m);
    std::ostringstream a, b; p.printStats(a); p.printStats(b);
    REQUIRE(c, a.str() == b.str(), "printing changes the statistics");
}
MC_FAMILY(names, "pairs of labels of 0..300 characters that differ only in the last, first or middle one or in length, letters, digits, spaces, slashes and bytes above 127; 2 measures each", 2) {
    static const int N[14] = {1, 0, 2, 15, 16, 31, 32, 63, 64, 65, 100, 127, 255, 300}; int n = N[c.choose(14)], how = c.choose(4), al = c.choose(4); std::string a;
    for (int i = 0; i < n; ++i) a += al == 0 ? char('a' + i % 26) : al == 1 ? " ab/c:"[1 + (i * 7) % 5] : al == 2 ? (i % 3 == 1 && i + 1 < n ? ' ' : 'x') : (char)(0xc0 + i % 40);
    std::string b = a; if (how == 3 || !n) b += "q"; else b[how == 0 ? n - 1 : how == 1 ? 0 : n / 2] = 'Q';
    DESC(c, n << " characters, alphabet " << al << ", difference " << how);
    Prof p; p.updateStat(a, 1); p.updateStat(b, 10); p.updateStat(a, 3); p.updateStat(b, 20); c.step(4);
    std::ostringstream o; o << std::setprecision(17); p.printStats(o); std::istringstream in(o.str()); std::string s; int lines = 0, seen[2] = {0, 0};
    while (std::getline(in, s)) {
        ++lines;
        for (int k = 0; k < 2; ++k) {
            const std::string& l = k ? b : a; if (s.compare(0, l.size(), l) || (s.size() > l.size() && s[l.size()] != ' ' && s[l.size()] != '\t')) continue;
            std::istringstream f(s.substr(l.size())); double v[5]; std::string rest; bool ok = true; for (double& x : v) ok = ok && bool(f >> x);
            if (!ok || f >> rest) continue;
            REQUIRE(c, v[0] == (k ? 15 : 2) && v[1] == (k ? 50 : 2) && v[2] == (k ? 10 : 1) && v[3] == (k ? 20 : 3) && v[4] == 2, "line \"" << s << "\""); seen[k]++;
        }
    }
    REQUIRE(c, lines == 2 && seen[0] == 1 && seen[1] == 1, lines << " lines, the labels are reported " << seen[0] << " and " << seen[1] << " times:\n" << o.str());
    c.state(mc::mix(mc::mix(n, how), al));
}
MC_FAMILY(long_series, "5 patterns, 1..200 (1..1000) measures, large offsets", 1) {
    int pat = c.choose(5), n = c.range(1, c.tier(200, 1000));
    Prof p; M m;
    DESC(c, "pattern " << pat << " n " << n);
    for (int i = 0; i < n; ++i) {
        double x = pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i * 7919 % 101) / 4.0 : pat == 3 ? 1e6 + i % 3 : (i % 2 ? -50 : 50);
        p.updateStat("s", x); m["s"].push_back(x);
    }
    compare(c, report(c, p), m);
}
// Timers: an execution uses its own labels, because the profiler of the timers lives as long as the process.
static int runs = 0;
MC_FAMILY(timers, "every history of 6 (7) steps: start a timer (2 labels), stop any running timer, read any timer, let 3 amounts of time pass; at most 3 timers; thorough tier up to 8", 2) {
    std::string pre = "t" + std::to_string(getpid()) + "_" + std::to_string(++runs) + "_";
    struct T { std::unique_ptr<rofl::ScopedTimer> t; std::string lab; long start; };
    std::vector<T> live; M m;
    int depth = c.tier(6, 7, 8);
    static const long DT[3] = {1000001, 1537, 7777000000L};
    int started = 0;
    for (int i = 0; i < depth; ++i) {
        c.step();
        int L = live.size(), canStart = started < 2 ? 2 : 0;
        int op = c.choose(2 + canStart + L);
        if (op < 2) { vsteady += DT[op == 1 ? 2 : i % 2]; DESC(c, "wait " << (op == 1 ? DT[2] : DT[i % 2]) << "ns; "); }
        else if (op < 2 + canStart) { std::string l = pre + (op == 2 ? "a" : "b"); DESC(c, "start " << op - 2 << "; "); live.push_back({std::unique_ptr<rofl::ScopedTimer>(new rofl::ScopedTimer(l)), l, vsteady}); ++started; }
        else { T& t = live[op - 2 - canStart]; DESC(c, "stop " << op - 2 - canStart << "; "); m[t.lab].push_back((vsteady - t.start) * 1e-6); t.t.reset(); live.erase(live.begin() + (op - 2 - canStart)); }
        for (auto& t : live) { double w = (vsteady - t.start) * 1e-6, g = t.t->elapsedTimeMs(); REQUIRE(c, near(g, w), "elapsed " << g << " ms, expected " << w); }
    }
    if (m.empty() && (runs & 7)) return;
    compare(c, report(c, rofl::Profiler::getProfiler(), pre), m);
    for (auto& t : live) t.t.reset();
}
static std::string hereTimed(int a, int b, double* inside, int) {
    std::string lab = std::string("C18.cpp_") + __FUNCTION__ + "_" + std::to_string(__LINE__ + 1);
    ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
    vsteady += a * 1000000L;
    *inside = a;
    vsteady += b * 1000000L;
    return lab;
}
MC_FAMILY(scope_macro, "the scoped timer macro measures the scope it is written in: 3 calls with all durations 0..3 ms before and after an inner step, two macros in one function", 1) {
    struct Case { int a, b; }; std::vector<double> v;
    int n = c.range(1, 3); std::string lab; double in;
    auto before = report(c, rofl::Profiler::getProfiler(), "C18.cpp_hereTimed_");
    double s0 = 0; long n0 = 0; if (!before.empty()) { s0 = before.begin()->second.avg * before.begin()->second.n; n0 = before.begin()->second.n; }
    double s = 0;
    for (int i = 0; i < n; ++i) { int a = c.choose(4), b = c.choose(4); DESC(c, a << "+" << b << "ms "); lab = hereTimed(a, b, &in, 0); s += a + b; c.step(); }
    auto r = report(c, rofl::Profiler::getProfiler(), "C18.cpp_hereTimed_");
    REQUIRE(c, r.size() == 1 && r.count(lab), "the scope is not reported under " << lab);
    REQUIRE(c, r[lab].n == n0 + n, "the scope was executed " << n << " times, counted " << r[lab].n - n0);
    REQUIRE(c, std::fabs(r[lab].avg * r[lab].n - s0 - s) < 1e-6 * (1 + s0), "time spent in the scope " << s << " ms, measured " << r[lab].avg * r[lab].n - s0);
    c.state(mc::mix(n, (u64)s));
}
MC_FAMILY(two_macros, "two scoped timer macros in nested scopes of one function: durations 0..4 ms each", 1) {
    int a = c.choose(5), b = c.choose(5), d = c.choose(5); c.step();
    DESC(c, a << "," << b << "," << d);
    auto sum = [&](const std::string& l) { auto r = report(c, rofl::Profiler::getProfiler(), l); return r.count(l) ? r[l].avg * r[l].n : 0.0; };
    std::string outer = "C18.cpp_two_macros_" + std::to_string(__LINE__ + 4), inner = "C18.cpp_two_macros_" + std::to_string(__LINE__ + 6);
    double o0 = sum(outer), i0 = sum(inner);
    auto ms = [](int k) { vsteady += k * 1000000L; };
    {
        ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE ms(a);
        {
            ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE ms(b);
        }
        ms(d);
    }
    REQUIRE(c, near(sum(outer) - o0, a + b + d), "outer scope measured " << sum(outer) - o0 << " ms expected " << a + b + d);
    REQUIRE(c, near(sum(inner) - i0, b), "inner scope measured " << sum(inner) - i0 << " ms expected " << b);
    c.state(mc::mix(a * 25 + b * 5 + d, 3));
}
MC_FAMILY(scale, "1 or 3 labels with 255..258, 65535..65538 and 70000 measures each, 4 patterns; 300 and 70000 labels with 2 measures each", 1) {
    int k = c.choose(11), pat = c.choose(4); static const int N[9] = {255, 256, 257, 258, 65535, 65536, 65537, 65538, 70000};
    Prof p; M m; DESC(c, "case " << k << " pattern " << pat);
    auto x = [&](int i) { return pat == 0 ? 1.0 : pat == 1 ? i % 100 : pat == 2 ? 0.25 * ((i * 7919) % 101) : (i % 2 ? -3.0 : 5.0); };
    auto put = [&](const std::string& l, double v) { p.updateStat(l, v); m[l].push_back(v); };
    if (k < 9) for (int i = 0; i < N[k]; ++i) { put("a", x(i)); if (pat % 2) { put("b", x(i + 1)); put("ab", -x(i)); } }
    else for (int q = 0; q < 2; ++q) for (int i = 0; i < (k == 9 ? 300 : 70000); ++i) put("lab" + std::to_string(i), x(i + q));
    c.step(N[k % 9]); compare(c, report(c, p), m);
}
MC_MAIN()
