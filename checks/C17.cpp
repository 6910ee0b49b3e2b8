// C17: container valued parameters and expansion of the home directory.
// QUICK: 1
// LIBS: common
#include <rofl/common/param_map.h>
#include <map>
#include <list>
#include <iterator>
#include <climits>
#include "mc.h"
using mc::Ctx;
using mc::u64;

static std::vector<std::string> tokens(const std::string& s, const std::string& delim) {
    std::vector<std::string> v; std::string cur;
    for (char ch : s) { if (delim.find(ch) != std::string::npos) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += ch; }
    if (!cur.empty()) v.push_back(cur);
    return v;
}
static bool number(const std::string& s, int& v) { size_t i = s[0] == '-' ? 1 : 0; if (i == s.size()) return false; for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false; long l = s.size() > 12 ? 1L << 40 : atol(s.c_str()); v = (int)l; return l >= INT_MIN && l <= INT_MAX; }  // a number that does not fit is not a value of the type
// Values before the first token that is not a number.
static std::vector<int> numbers(const std::string& s, const std::string& delim, bool* bad = nullptr) {
    std::vector<int> r; int v;
    if (bad) *bad = false;
    for (auto& t : tokens(s, delim)) { if (!number(t, v)) { if (bad) *bad = true; break; } r.push_back(v); }
    return r;
}
template <typename V> static std::string show(const V& v) { std::ostringstream o; o << "["; for (auto& x : v) o << x << " "; o << "]"; return o.str(); }

template <typename Cont> static void fixedSize(Ctx& c, const std::string& val, bool present, const std::string& dflt, int n, int dv, const std::string* delim) {
    rofl::ParamMap p; p.setParamString("other", "1");
    if (present) p.setParamString("k", val);
    std::string dl = delim ? *delim : "[],", src = present ? val : dflt;
    std::vector<int> want = numbers(src, dl);
    for (int pass = 0; pass < 2; ++pass) {
        c.step();
        Cont v(n + 2, 1234);
        auto b = v.begin(), e = v.end(); ++b; --e;
        bool r = delim ? p.getParamContainer("k", b, e, dflt, dv, *delim) : p.getParamContainer("k", b, e, dflt, dv);
        REQUIRE(c, r == (present || pass == 1), "returns " << r << " on call " << pass);
        auto it = b;
        for (int i = 0; i < n; ++i, ++it) {
            int w = i < (int)want.size() ? want[i] : dv;
            REQUIRE(c, *it == w, "element " << i << " = " << *it << " expected " << w << " from \"" << src << "\"");
        }
        REQUIRE(c, v.front() == 1234 && v.back() == 1234, "elements outside the range were written");
        std::string s; p.getParam("k", s, std::string("?"));
        REQUIRE(c, s == src, "the stored text is \"" << s << "\" expected \"" << src << "\"");
        std::string o; REQUIRE(c, p.getParam("other", o, std::string("?")) && o == "1", "another parameter changed");
    }
    u64 h = mc::mix(n, present); for (char ch : val) h = mc::mix(h, ch); for (char ch : dflt) h = mc::mix(h, ch); c.state(h);
}
MC_FAMILY(texts, "every value text of up to 5 (6) pieces over {1, -2, comma, [, ], x}, read in ranges of 0..3 elements, present; thorough tier up to 7", 2) {
    static const char* A[] = {"1", ",", "-2", "[", "]", "x"};
    int n = c.range(0, c.tier(5, 6, 7));
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(6)];
    DESC(c, "text \"" << t << "\"");
    for (int len = 0; len <= 3; ++len) fixedSize<std::vector<int>>(c, t, true, "[8,9]", len, 77, nullptr);
}
MC_FAMILY(defaults, "absent parameter: default texts of up to 4 pieces, ranges of 0..4 elements in a list or a vector; asked twice", 2) {
    static const char* A[] = {"1", ",", "-2", "[", "]", "x"};
    int n = c.range(0, 4), len = c.choose(5); bool lst = c.flag();
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(6)];
    DESC(c, "default \"" << t << "\" range " << len);
    if (lst) fixedSize<std::list<int>>(c, "", false, t, len, -9, nullptr); else fixedSize<std::vector<int>>(c, "", false, t, len, -9, nullptr);
}
MC_FAMILY(delimiters, "every value text of up to 6 pieces over {1, 20, ;, comma, space} with delimiter sets {\";\", \", \", \";,\"}; thorough tier up to 7", 2) {
    static const char* A[] = {"1", ";", "20", ",", " "};
    static const std::string D[3] = {";", ", ", ";,"};
    int n = c.range(1, c.tier(5, 6, 7)), d = c.choose(3);
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(5)];
    DESC(c, "text \"" << t << "\" delimiters \"" << D[d] << "\"");
    fixedSize<std::vector<int>>(c, t, true, "0", 3, 5, &D[d]);
    fixedSize<std::vector<int>>(c, "", false, t, 3, 5, &D[d]);
}
MC_FAMILY(words, "every list of up to 4 (5) pieces over {a, bc, comma, ;, [, ~} of strings with delimiter sets {default, \";\", \"~\", \"[;\"}: present, absent (default text), and through an inserter; thorough tier up to 6", 2) {
    static const char* A[] = {"a", ",", "bc", ";", "[", "~"};
    static const std::string D[4] = {"[],", ";", "~", "[;"};
    int n = c.range(1, c.tier(4, 5, 6)), d = c.choose(4), how = c.choose(3);
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(6)];
    DESC(c, "text \"" << t << "\" delimiters \"" << D[d] << "\" how " << how);
    std::vector<std::string> want; std::string cur;
    for (char ch : t + D[d][0]) if (D[d].find(ch) != std::string::npos) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch;
    rofl::ParamMap p; c.step();
    if (how != 1) p.setParamString("k", t);
    std::vector<std::string> got;
    if (how == 2) { if (d == 0) p.getParamContainerInserter("k", std::back_inserter(got), std::string("z")); else p.getParamContainerInserter("k", std::back_inserter(got), std::string("z"), D[d]); }
    else {
        got.assign(5, "old"); want.resize(5, "z");
        std::string df = how == 1 ? t : "q";
        bool r = d == 0 ? p.getParamContainer("k", got.begin(), got.end(), df, std::string("z")) : p.getParamContainer("k", got.begin(), got.end(), df, std::string("z"), D[d]);
        REQUIRE(c, r == (how == 0), "presence reported as " << r);
    }
    REQUIRE(c, got.size() == want.size(), got.size() << " items, expected " << want.size());
    for (size_t i = 0; i < want.size(); ++i) REQUIRE(c, got[i] == want[i], "item " << i << " is \"" << got[i] << "\" expected \"" << want[i] << "\"");
    u64 h = mc::mix(d, how); for (char ch : t) h = mc::mix(h, ch); c.state(h);
}
MC_FAMILY(long_words, "lists of 1..3 items of 1..300 characters as strings, and numbers written with up to 300 leading zeros: present, absent (default text) and through an inserter", 3) {
    static const int N[13] = {1, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 300}; int k = c.range(1, 3), how = c.choose(3), num = c.choose(2); std::string t; std::vector<std::string> want; std::vector<int> wn;
    for (int i = 0; i < k; ++i) { int n = N[c.choose(13)]; std::string w; if (num) { w = std::string(n, '0') + std::to_string(7 + i); wn.push_back(7 + i); } else for (int j = 0; j < n; ++j) w += char('a' + (i + j) % 26); want.push_back(w); t += (i ? "," : "[") + w; }
    t += "]"; DESC(c, "text \"" << t << "\" how " << how); rofl::ParamMap p; c.step(); if (how != 1) p.setParamString("k", t);
    auto go = [&](auto z, auto w) {
        decltype(w) got; if (how == 2) p.getParamContainerInserter("k", std::back_inserter(got), z); else { got.resize(k); p.getParamContainer("k", got.begin(), got.end(), how == 1 ? t : std::string("q"), z); }
        REQUIRE(c, got.size() == w.size(), got.size() << " items, expected " << w.size());
        for (size_t i = 0; i < w.size(); ++i) REQUIRE(c, got[i] == w[i], "item " << i << " is \"" << got[i] << "\" expected \"" << w[i] << "\"");
    };
    if (num) go(0, wn); else go(std::string("z"), want);
    u64 h = mc::mix(how, num); for (auto& w : want) h = mc::mix(h, w.size()); c.state(h);
}
MC_FAMILY(inserter, "every value text of up to 5 (6) pieces over {1, -2, comma, [, ], x} through an inserter, present or absent, asked twice; thorough tier up to 7", 2) {
    static const char* A[] = {"1", ",", "-2", "[", "]", "x"};
    int n = c.range(0, c.tier(5, 6, 7)); bool present = c.flag();
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(6)];
    DESC(c, (present ? "text \"" : "absent, text \"") << t << "\"");
    rofl::ParamMap p; if (present) p.setParamString("k", t);
    std::vector<int> want = present ? numbers(t, "[],") : std::vector<int>();
    for (int pass = 0; pass < 2; ++pass) {
        c.step();
        std::vector<int> v{42};
        bool r = p.getParamContainerInserter("k", std::back_inserter(v), 0);
        REQUIRE(c, r == (present || pass == 1), "returns " << r);
        std::vector<int> w{42}; w.insert(w.end(), want.begin(), want.end());
        REQUIRE(c, v == w, "inserted " << show(v) << " expected " << show(w));
    }
    u64 h = mc::mix(3, present); for (char ch : t) h = mc::mix(h, ch); c.state(h);
}
MC_FAMILY(doubles, "arrays of 0..6 doubles k/4 written as [a,b,..] and read back in ranges of the same, smaller and larger length", 2) {
    int n = c.choose(7), start = c.range(-9, 9), step = c.pick({1, -3, 7}), len = c.range(0, 8);
    std::ostringstream o; o << "["; for (int i = 0; i < n; ++i) o << (i ? "," : "") << (start + i * step) / 4.0; o << "]";
    DESC(c, o.str() << " range " << len); c.step();
    rofl::ParamMap p; p.setParamString("k", o.str());
    std::vector<double> v(len, 1e9), v2;
    p.getParamContainer("k", v.begin(), v.end(), "[]", 0.5);
    for (int i = 0; i < len; ++i) REQUIRE(c, v[i] == (i < n ? (start + i * step) / 4.0 : 0.5), "element " << i << " = " << v[i]);
    p.getParamContainerInserter("k", std::back_inserter(v2), 0.0);
    REQUIRE(c, (int)v2.size() == n, "inserted " << v2.size() << " of " << n);
    for (int i = 0; i < n; ++i) REQUIRE(c, v2[i] == (start + i * step) / 4.0, "inserted element " << i << " = " << v2[i]);
    c.state(mc::mix(mc::mix(n, start + 20), mc::mix(step + 5, len)));
}
MC_FAMILY(long_lists, "lists of 0..64 (200) numbers of 1..9 digits, 3 ways of writing, as int, long and double, ranges shorter, equal and longer, and inserter; one bad item at every tenth place", 2) {
    int n = c.range(0, c.tier(64, 200)), form = c.choose(3), extra = c.range(-1, 1), bad = c.choose(4) * 10 - 1; if (bad >= n) return;
    std::vector<long> x; for (int i = 0; i < n; ++i) { long v = 1; for (int k = 0; k < i % 9; ++k) v = v * 10 + (i + k) % 10; x.push_back(i % 2 ? -v : v); }
    std::string t = form ? "[" : ""; for (int i = 0; i < n; ++i) t += (i ? form == 2 ? "],[" : "," : "") + (i == bad ? std::string("1.5e") : std::to_string(x[i])); if (form) t += "]";
    DESC(c, n << " items \"" << t << "\" range " << n + extra << " bad item " << bad); c.step(4);
    int good = bad < 0 ? n : bad, len = std::max(0, n + extra);
    rofl::ParamMap p; p.setParamString("k", t);
    std::vector<int> a(len, 5), ai; std::list<long> b(len, 5L); std::vector<double> d(len, 5.0);
    p.getParamContainer("k", a.begin(), a.end(), "[]", -3); p.getParamContainer("k", b.begin(), b.end(), "[]", -3L); p.getParamContainer("k", d.begin(), d.end(), "[]", -3.0); p.getParamContainerInserter("k", std::back_inserter(ai), 0);
    auto ib = b.begin();
    for (int i = 0; i < len; ++i, ++ib) { long w = i < good ? x[i] : -3; REQUIRE(c, a[i] == w && *ib == w && d[i] == w, "element " << i << " = " << a[i] << ", " << *ib << ", " << d[i] << " expected " << w); }
    REQUIRE(c, (int)ai.size() == good, "inserted " << ai.size() << " expected " << good);
    for (int i = 0; i < good; ++i) REQUIRE(c, ai[i] == x[i], "inserted item " << i << " = " << ai[i]);
    c.state(mc::mix(mc::mix(n, form), mc::mix(extra + 1, bad + 1)));
}
// Home directory: "~" and "~/..." at the beginning of a value; nothing else changes.
static std::string norm(const std::string& s) { std::string o; for (char ch : s) if (!(ch == '/' && !o.empty() && o.back() == '/')) o += ch; if (o.size() > 1 && o.back() == '/') o.pop_back(); return o; }
MC_FAMILY(home, "every combination of 4 parameters with values over 19 forms (~, ~/, ~/a, ~/a~b, ~/~, a~, /x/~/y, a/~, ~bob, ~bob/x, empty, ...), 4 home directories or none; applied once and twice", 3) {
    static const std::vector<std::string> V{"~/a", "plain", "~", "~/", "~/a~b", "~/~", "a~", "/x/~/y", "-~/b", "", "~/deep/er.txt", "./~", "1~2", "~/a/b~", "~bob/x", "~bob", "~~/a", "~.", "~\\x"};
    static const std::vector<std::string> HOMES{"/home/user", "/r", "/home/us~er", "/home/slash/"};
    int n = c.tier(3, 4), hm = c.choose(5);
    std::map<std::string, std::string> m; rofl::ParamMap p;
    for (int i = 0; i < n; ++i) { std::string k(1, (char)('a' + (i * 7) % 26)); m[k] = V[c.choose(V.size())]; p.setParamString(k, m[k]); DESC(c, k << "=\"" << m[k] << "\" "); }
    if (hm < 4) setenv("HOME", HOMES[hm].c_str(), 1); else unsetenv("HOME");
    DESC(c, "HOME " << (hm < 4 ? HOMES[hm] : "unset"));
    for (int pass = 0; pass < 2; ++pass) {
        c.step();
        p.adaptTildeInPaths();
        u64 h = hm;
        for (auto& kv : m) {
            std::string v; REQUIRE(c, p.getParam(kv.first, v, std::string("absent")), "parameter " << kv.first << " disappeared");
            bool t = hm < 4 && (kv.second == "~" || kv.second.substr(0, 2) == "~/");
            std::string w = t ? HOMES[hm] + "/" + (kv.second.size() > 2 ? kv.second.substr(2) : "") : kv.second;
            REQUIRE(c, t ? norm(v) == norm(w) : v == w, "\"" << kv.second << "\" became \"" << v << "\" expected \"" << w << "\"");
            for (char ch : v) h = mc::mix(h, ch);
        }
        c.state(h);
        std::ostringstream o; p.write(o); size_t nl = 0; for (char ch : o.str()) nl += ch == '\n';
        REQUIRE(c, nl == m.size(), "number of parameters changed");
    }
}
MC_FAMILY(scale, "lists of 255..257, 1000, 65535..65537 and 70000 numbers, ranges of one less, the same and one more, and inserter", 2) {
    int n = c.pick({255, 256, 257, 1000, 65535, 65536, 65537, 70000}), extra = c.range(-1, 1); bool br = c.flag();
    DESC(c, n << " items, range " << n + extra << (br ? " in brackets" : "")); c.step(n);
    std::string t = br ? "[" : ""; for (int i = 0; i < n; ++i) t += (i ? "," : "") + std::to_string(i % 2 ? -i : i); if (br) t += "]";
    rofl::ParamMap p; p.setParamString("k", t);
    std::vector<int> a(n + extra, 5), b; p.getParamContainer("k", a.begin(), a.end(), "[]", -3); p.getParamContainerInserter("k", std::back_inserter(b), 0);
    REQUIRE(c, (int)b.size() == n, "inserted " << b.size() << " items of " << n);
    for (int i = 0; i < n + extra; ++i) REQUIRE(c, a[i] == (i < n ? i % 2 ? -i : i : -3), "element " << i << " = " << a[i]);
    for (int i = 0; i < n; ++i) REQUIRE(c, b[i] == (i % 2 ? -i : i), "inserted item " << i << " = " << b[i]);
    c.state(mc::mix(n, extra * 2 + br + 9));
}
MC_MAIN()
