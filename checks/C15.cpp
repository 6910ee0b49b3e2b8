// C15: parameter store and its text format against a map of strings.
// LIBS: common
#include <rofl/common/param_map.h>
#include <map>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef std::map<std::string, std::string> M;

static std::string esc(const std::string& s) { std::string o; for (char ch : s) { if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch == '\r') o += "\\r"; else o += ch; } return "\"" + (o.size() > 120 ? o.substr(0, 120) + "..." : o) + "\""; }
static u64 hash(const M& m) { u64 h = 17; for (auto& p : m) { h = mc::mix(h, std::hash<std::string>()(p.first)); h = mc::mix(h, std::hash<std::string>()(p.second)); } return h; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::string cur; for (char ch : s) { if (ch == '\n') { v.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) v.push_back(cur); std::sort(v.begin(), v.end()); return v; }
static std::string text(const M& m, const std::string& pre = "") { std::string s; for (auto& p : m) s += pre + p.first + " " + p.second + "\n"; return s; }

// What the written text says is what the map holds.
static void same(Ctx& c, const rofl::ParamMap& p, const M& m, const char* what) {
    c.step();
    std::ostringstream o;
    REQUIRE(c, p.write(o), what << ": write failed");
    REQUIRE(c, lines(o.str()) == lines(text(m)), what << ": written " << esc(o.str()) << " expected " << esc(text(m)));
}
static std::string get(rofl::ParamMap& p, const std::string& k) { std::string v; p.getParam(k, v, std::string("absent")); return v; }
// Reference reader, character by character.
static void parse(const std::string& in, M& m) {
    std::vector<std::string> w; std::string cur;
    auto word = [&]() { if (!cur.empty()) w.push_back(cur); cur.clear(); };
    auto line = [&]() { word(); if (w.size() >= 2 && w[0][0] != '#') m[w[0]] = w[1]; w.clear(); };
    for (char ch : in) {
        if (ch == '\n') line();
        else if (ch == ' ' || ch == '\t' || ch == '\r') word();
        else cur += ch;
    }
    line();
}
// Writing and reading back, by stream and by file.
static void roundTrip(Ctx& c, rofl::ParamMap& p, const M& m) {
    std::ostringstream o; p.write(o);
    rofl::ParamMap q; std::istringstream in(o.str());
    REQUIRE(c, q.read(in), "read of what was written failed");
    same(c, q, m, "read back");
    for (auto& kv : m) REQUIRE(c, get(q, kv.first) == kv.second, "after reading back, " << kv.first << " = " << esc(get(q, kv.first)) << " expected " << esc(kv.second));
    same(c, p, m, "source of the round trip");
}
struct Scratch {
    char dir[64];
    Scratch() { strcpy(dir, "/tmp/roflC15XXXXXX"); if (!mkdtemp(dir)) abort(); }
    std::string file() const { return std::string(dir) + "/params.txt"; }
    ~Scratch() { unlink(file().c_str()); rmdir(dir); }
};

MC_FAMILY(histories, "every history of length 4 (5 thorough) of set (string, int, double, bool), typed get with default, clear, read of a text, over 3 names; the whole content is compared after every operation", 2) {
    rofl::ParamMap p; M m;
    static const char* K[3] = {"a", "ab", "Z-1"};
    int depth = c.tier(4, 5);
    for (int i = 0; i < depth; ++i) {
        int op = c.choose(8);
        std::string k = op < 7 ? K[c.choose(3)] : "";
        if (op == 0) { std::string v = c.pick<std::string>({"x", "-7"}); p.setParamString(k, v); m[k] = v; DESC(c, "setString(" << k << "," << v << ") "); }
        else if (op == 1) { int v = c.pick({0, -42}); p.setParam(k, v); m[k] = std::to_string(v); DESC(c, "set(" << k << "," << v << ") "); }
        else if (op == 2) { p.setParam(k, 0.5); m[k] = "0.5"; DESC(c, "set(" << k << ",0.5) "); }
        else if (op == 3) {
            int v = -1; bool had = m.count(k); DESC(c, "get<int>(" << k << ",9) ");
            bool r = p.getParam(k, v, 9);
            REQUIRE(c, r == had, "get of " << k << " returns " << r);
            if (!had) { REQUIRE(c, v == 9, "default is 9 but the value is " << v); m[k] = "9"; }
            else if (m[k].find_first_not_of("-0123456789") == std::string::npos) REQUIRE(c, v == atoi(m[k].c_str()), k << " holds " << m[k] << " but the value is " << v);
        } else if (op == 4) {
            std::string v = "?"; bool had = m.count(k); DESC(c, "get<string>(" << k << ",dflt) ");
            bool r = p.getParam(k, v, std::string("dflt"));
            REQUIRE(c, r == had && v == (had ? m[k] : "dflt"), "get of string " << k << " returns " << r << " " << esc(v));
            if (!had) m[k] = "dflt";
        } else if (op == 5) {
            bool d = c.flag(), v = !d, had = m.count(k); DESC(c, "get<bool>(" << k << "," << d << ") ");
            bool r = p.getParam(k, v, d);
            REQUIRE(c, r == had, "get of " << k << " returns " << r);
            if (!had) { REQUIRE(c, v == d, "default not given back"); m[k] = d ? "1" : "0"; }
            else if (m[k] == "0" || m[k] == "1") REQUIRE(c, v == (m[k] == "1"), "bool value of " << m[k]);
        } else if (op == 6) { DESC(c, "clear "); p.clear(); m.clear(); }
        else {
            std::string t = c.pick<std::string>({"a 1\nab 2\n", "# a 5\nZ-1 q # tail\na", "ab 3\n\nab 4"});
            DESC(c, "read(" << esc(t) << ") ");
            std::istringstream in(t); p.read(in); parse(t, m);
        }
        same(c, p, m, "content");
        c.state(mc::mix(hash(m), 1));
    }
    roundTrip(c, p, m);
}
MC_FAMILY(texts, "every text of up to 7 (9 thorough) characters over {a, b, #, space, newline}, read into an empty or non-empty store", 3) {
    static const char A[] = {'a', '\n', ' ', '#', 'b'};
    int n = c.range(0, c.tier(7, 9));
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(5)];
    DESC(c, "text " << esc(t));
    for (int pre = 0; pre < 2; ++pre) {
        rofl::ParamMap p; M m;
        if (pre) { p.setParamString("a", "0"); m["a"] = "0"; p.setParamString("q", "1"); m["q"] = "1"; }
        std::istringstream in(t); p.read(in); parse(t, m);
        same(c, p, m, "after reading");
        c.state(hash(m));
    }
}
MC_FAMILY(spaced_texts, "every sequence of up to 6 (7) pieces over {name, value, #c, space, tab, carriage return, newline, value containing #}", 3) {
    static const char* A[] = {"name", "\n", " ", "\t", "\r", "v#1", "#c", "-3.5e2"};
    int n = c.range(1, c.tier(6, 7));
    std::string t; for (int i = 0; i < n; ++i) t += A[c.choose(8)];
    DESC(c, "text " << esc(t));
    rofl::ParamMap p; M m;
    std::istringstream in(t); REQUIRE(c, p.read(in), "read of a text failed"); parse(t, m);
    same(c, p, m, "after reading");
    c.state(hash(m));
}
MC_FAMILY(long_lines, "lines of 1..1999 characters (name and value lengths from a list, all pairs that fit), followed by another parameter", 2) {
    static const std::vector<int> L{1, 2, 63, 64, 255, 256, 500, 997, 1000, 1997};
    int ln = c.pick(L), lv = c.choose(L.size()), gap = c.pick({1, 2, 7});
    lv = L[lv];
    if (c.flag()) lv = 1999 - ln - gap;                    // exactly the longest line
    if (lv < 1 || ln + lv + gap > 1999) return;
    std::string t = std::string(ln, 'n') + std::string(gap, ' ') + std::string(lv, 'v') + "\nlast ok\n";
    DESC(c, "name " << ln << " gap " << gap << " value " << lv << " characters");
    rofl::ParamMap p; M m; std::istringstream in(t); p.read(in); parse(t, m);
    same(c, p, m, "long line");
    if (gap == 1) roundTrip(c, p, m);
    c.state(mc::mix(ln * 3000 + lv, gap));
}
MC_FAMILY(values, "typed set then get: integers next to powers of two, doubles k/8, bools, characters, strings, through 0..2 write/read round trips", 2) {
    rofl::ParamMap p; M m;
    int rt = c.choose(3), kind = c.choose(6);
    auto cycle = [&]() { for (int i = 0; i < rt; ++i) { std::ostringstream o; p.write(o); p.clear(); std::istringstream in(o.str()); p.read(in); } };
    c.step();
    if (kind == 0) { int b = c.choose(31), d = c.range(-1, 1), s = c.flag() ? -1 : 1; int v = s * ((1 << b) - 1 + d), g = 77; DESC(c, "int " << v << " cycles " << rt); p.setParam("k", v); cycle(); REQUIRE(c, p.getParam("k", g, -5) && g == v, "int " << v << " comes back as " << g); c.state(mc::mix(v, rt)); }
    else if (kind == 1) { int b = c.choose(63), d = c.range(-1, 1), s = c.flag() ? -1 : 1; long v = s * ((1l << b) - 1 + d), g = 77; DESC(c, "long " << v << " cycles " << rt); p.setParam("k", v); cycle(); REQUIRE(c, p.getParam("k", g, -5l) && g == v, "long " << v << " comes back as " << g); c.state(mc::mix(v, rt)); }
    else if (kind == 2) { int n = c.range(-64, 64); double v = n / 8.0, g = 77; DESC(c, "double " << v << " cycles " << rt); p.setParam("k", v); cycle(); REQUIRE(c, p.getParam("k", g, -5.0) && g == v, "double " << v << " comes back as " << g); c.state(mc::mix(n, rt)); }
    else if (kind == 3) { bool v = c.flag(), g = !v; DESC(c, "bool " << v << " cycles " << rt); p.setParam("k", v); cycle(); REQUIRE(c, p.getParam("k", g, !v) && g == v, "bool comes back as " << g); c.state(mc::mix(v, rt)); }
    else if (kind == 4) { int k = c.range(33, 126); std::string v(1 + c.choose(3), (char)k), g; DESC(c, "string " << v << " cycles " << rt); p.setParam("k", v); cycle(); REQUIRE(c, p.getParam("k", g, std::string("d")) && g == v, "string " << v << " comes back as " << g); c.state(mc::mix(std::hash<std::string>()(v), rt)); }
    else { int k = c.range(33, 126); if (k == '#') return; std::string n = std::string(1, (char)k) + "x", v = "7"; int g = 0; DESC(c, "name " << n << " cycles " << rt); p.setParam(n, v); cycle(); REQUIRE(c, p.getParam(n, g, 1) && g == 7, "parameter named " << n << " comes back as " << g); c.state(mc::mix(k, rt)); }
}
MC_FAMILY(digits, "numbers of 1..6 significant digits (9 patterns), both signs, exponents -30..30 (-300..300 for double in steps of 7), as float and double, set or taken as default, through 0..2 write/read round trips", 2) {
    static const char* D[9] = {"1", "12", "987", "1.5", "1234", "99999", "123456", "999999", "100001"};
    int rt = c.choose(3), d = c.choose(9), e = c.range(-30, 30); bool neg = c.flag(), dflt = c.flag(), wide = c.flag(); if (wide && e % 2) return;
    if (wide) e *= 7;
    std::string t = std::string(neg ? "-" : "") + D[d] + "e" + std::to_string(e); DESC(c, t << (dflt ? " as default" : "") << " cycles " << rt); c.step();
    auto cycle = [&](rofl::ParamMap& p) { for (int i = 0; i < rt; ++i) { std::ostringstream o; p.write(o); p.clear(); std::istringstream in(o.str()); p.read(in); } };
    { double v = strtod(t.c_str(), nullptr), g = 7; rofl::ParamMap p; if (dflt) { p.getParam("k", g, v); REQUIRE(c, g == v, "default " << t << " is given back as " << g); } else p.setParam("k", v); cycle(p); g = 7; REQUIRE(c, p.getParam("k", g, 5.0) && g == v, "double " << t << " comes back as " << g); }
    if (!wide) { float v = strtof(t.c_str(), nullptr), g = 7; rofl::ParamMap p; if (dflt) { p.getParam("k", g, v); REQUIRE(c, g == v, "default " << t << " is given back as " << g); } else p.setParam("k", v); cycle(p); g = 7; REQUIRE(c, p.getParam("k", g, 5.0f) && g == v, "float " << t << " comes back as " << g); }
    c.state(mc::mix(mc::mix(d * 8 + neg * 4 + dflt * 2 + wide, e + 500), rt));
}
template <typename T> static void extreme(Ctx& c, T v, T other) {
    for (int how = 0; how < 3; ++how) { rofl::ParamMap p; T g = other; c.step(); if (how == 1) p.getParam("k", g, v); else p.setParam("k", v); if (how == 2) { std::ostringstream o; p.write(o); p.clear(); std::istringstream in(o.str()); p.read(in); } g = other; REQUIRE(c, p.getParam("k", g, other) && g == v, "value " << v << " of " << sizeof(T) << " bytes comes back as " << g); }
}
MC_FAMILY(extremes, "least, largest and 8 more values of short, unsigned short, int, unsigned, long, unsigned long, characters and strings of 1..400 characters", 1) {
    int t = c.choose(8), k = c.choose(10); DESC(c, "type " << t << " value " << k);
#define EXT(T) { T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); extreme<T>(c, k == 0 ? lo : k == 1 ? hi : k == 2 ? (T)(lo + 1) : k == 3 ? (T)(hi - 1) : (T)(hi / (k * k)), (T)3); }
    if (t == 0) EXT(short) else if (t == 1) EXT(unsigned short) else if (t == 2) EXT(int) else if (t == 3) EXT(unsigned) else if (t == 4) EXT(long) else if (t == 5) EXT(unsigned long)
    else if (t == 6) extreme<char>(c, (char)(33 + k * 9), '!'); else extreme<std::string>(c, std::string(1 + k * 44, (char)('a' + k)) + std::to_string(k), "other");
    c.state(t * 10 + k);
}
MC_FAMILY(many, "0..120 (600) parameters with names of different lengths, overwritten from every tenth on, written and read back, read on top of another store", 1) {
    int n = c.range(0, c.tier(120, 600)), from = c.choose(5) * 10; rofl::ParamMap p; M m; DESC(c, n << " parameters, overwritten from " << from);
    for (int i = 0; i < n; ++i) { std::string k = std::string(i % 7, 'q') + std::to_string(i * 31 % 1000); p.setParam(k, i); m[k] = std::to_string(i); }
    for (int i = from; i < n; i += 3) { std::string k = std::string(i % 7, 'q') + std::to_string(i * 31 % 1000), v = "v" + std::to_string(i); p.setParamString(k, v); m[k] = v; }
    same(c, p, m, "content"); roundTrip(c, p, m);
    rofl::ParamMap q; M qm; for (int i = 0; i < 40; ++i) { std::string k = std::to_string(i); q.setParam(k, -i); qm[k] = std::to_string(-i); }
    std::ostringstream o; p.write(o); std::istringstream in(o.str()); q.read(in); for (auto& kv : m) qm[kv.first] = kv.second; same(c, q, qm, "read on top"); c.state(mc::mix(n, from));
}
MC_FAMILY(default_then_get, "absent parameter: the default is returned, stored, and later returned again (int, double, bool, string), with other parameters untouched", 1) {
    rofl::ParamMap p; M m; p.setParamString("other", "5"); m["other"] = "5";
    int t = c.choose(4), k = c.range(-8, 8); c.step();
    DESC(c, "type " << t << " default " << k);
    bool r1, r2, ok;
    if (t == 0) { int a = 99, b = 99; r1 = p.getParam("n", a, k); r2 = p.getParam("n", b, k + 1); ok = a == k && b == k; m["n"] = std::to_string(k); }
    else if (t == 1) { double d = k / 4.0, a = 99, b = 99; r1 = p.getParam("n", a, d); r2 = p.getParam("n", b, d + 1); ok = a == d && b == d; std::ostringstream o; o << d; m["n"] = o.str(); }
    else if (t == 2) { bool d = k > 0, a = !d, b = !d; r1 = p.getParam("n", a, d); r2 = p.getParam("n", b, !d); ok = a == d && b == d; m["n"] = d ? "1" : "0"; }
    else { std::string d = "s" + std::to_string(k), a, b; r1 = p.getParam("n", a, d); r2 = p.getParam("n", b, std::string("w")); ok = a == d && b == d; m["n"] = d; }
    REQUIRE(c, !r1, "an absent parameter is reported as found");
    REQUIRE(c, r2, "the stored default is reported as absent");
    REQUIRE(c, ok, "the default is not what is returned");
    same(c, p, m, "after the default");
    c.state(mc::mix(t, k));
}
MC_FAMILY(files, "all sets of up to 3 parameters out of 4 written to a file and read back, over an existing file; absent files are reported", 2) {
    Scratch s; std::string fn = s.file(), none = s.file() + ".missing", badw = std::string(s.dir) + "/nodir/x";
    rofl::ParamMap p, q; M m;
    int mask = c.choose(16), old = c.flag(), pre = c.choose(3); c.step(3);
    static const char* K[4] = {"alpha", "b", "c.d", "e_f"}; static const char* W[4] = {"1", "/tmp/x#y", "-2.5", "[1,2]"};
    DESC(c, "set " << mask << " old file " << old << " prefix " << pre);
    for (int i = 0; i < 4; ++i) if (mask >> i & 1) { p.setParamString(K[i], W[i]); m[K[i]] = W[i]; }
    REQUIRE(c, !q.read(none), "a missing file is reported as read");
    REQUIRE(c, !p.write(badw), "a file that cannot be created is reported as written");
    if (old) { std::ofstream f(fn); f << "stale 1\n" << std::string(3000, 'x') << "\n"; }
    REQUIRE(c, p.write(fn), "write to a file failed");
    REQUIRE(c, q.read(fn), "read from a file failed");
    same(c, q, m, "file round trip");
    static const std::string PR[3] = {"", "# ", "cfg."};
    std::ostringstream o; REQUIRE(c, p.write(o, PR[pre]), "write with a prefix failed");
    REQUIRE(c, lines(o.str()) == lines(text(m, PR[pre])), "prefixed text " << esc(o.str()));
    rofl::ParamMap z; M zm; std::istringstream in(o.str()); z.read(in); parse(o.str(), zm);
    same(c, z, zm, "prefixed text read back");
    c.state(mc::mix(mask, old * 8 + pre));
}
MC_FAMILY(scale, "255..258, 1000 and 65535..65537, 70000 parameters with 3 patterns of names, every third overwritten: content, every value, round trip", 1) {
    int n = c.pick({255, 256, 257, 258, 1000, 65535, 65536, 65537, 70000}), pat = c.choose(3); DESC(c, n << " parameters, names " << pat);
    rofl::ParamMap p; M m;
    auto key = [&](int i) { return pat == 0 ? "p" + std::to_string(i) : pat == 1 ? std::to_string(i * 7919L) + "_x" : std::string(1 + i % 40, 'k') + std::to_string(i); };
    for (int i = 0; i < n; ++i) { p.setParam(key(i), i); m[key(i)] = std::to_string(i); }
    for (int i = 0; i < n; i += 3) { p.setParam(key(i), -i); m[key(i)] = std::to_string(-i); }
    c.step(2 * n); same(c, p, m, "content"); roundTrip(c, p, m);
    for (int i = 0; i < n; ++i) { int v = 1; REQUIRE(c, p.getParam(key(i), v, 5) && v == (i % 3 ? i : -i), "parameter " << key(i) << " = " << v); }
    c.state(mc::mix(n, pat));
}
MC_FAMILY(two_stores, "two stores alive together: every history of 4 (5) operations on either: set 2 names, typed get with default, clear, read of a text, read of what the other wrote, copy over the other", 2) {
    rofl::ParamMap p[2]; M m[2]; int depth = c.tier(4, 5);
    for (int k = 0; k < depth; ++k) {
        int op = c.choose(14), i = op / 7; op %= 7; DESC(c, i << ":" << op << " "); rofl::ParamMap& x = p[i]; M& w = m[i];
        if (op < 2) { x.setParam(op ? "b" : "a", k); w[op ? "b" : "a"] = std::to_string(k); }
        else if (op == 2) { int v = -1; bool had = w.count("a"), r = x.getParam("a", v, 40 + k); REQUIRE(c, r == had && v == (had ? atoi(w["a"].c_str()) : 40 + k), "get of a returns " << r << " " << v); if (!had) w["a"] = std::to_string(v); }
        else if (op == 3) { x.clear(); w.clear(); }
        else if (op == 4) { std::string t = "b 7" + std::to_string(k) + "\nlast 3"; std::istringstream in(t); x.read(in); parse(t, w); }
        else if (op == 5) { std::ostringstream o; p[1 - i].write(o); std::istringstream in(o.str()); x.read(in); parse(o.str(), w); }
        else { x = p[1 - i]; w = m[1 - i]; }
        same(c, p[0], m[0], "first store"); same(c, p[1], m[1], "second store"); c.state(mc::mix(hash(m[0]), hash(m[1])));
    }
    roundTrip(c, p[0], m[0]); roundTrip(c, p[1], m[1]);
}
MC_MAIN()
