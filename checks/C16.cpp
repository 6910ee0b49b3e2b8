// C16: command line parsing of parameters.
// QUICK: 1
// LIBS: common
#include <rofl/common/param_map.h>
#include <map>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef std::map<std::string, std::string> M;

static bool option(const std::string& s) { return s.size() >= 2 && s[0] == '-' && ((s[1] >= 'a' && s[1] <= 'z') || (s[1] >= 'A' && s[1] <= 'Z')); }
static void expect(const std::vector<std::string>& a, M& m) { for (size_t i = 1; i + 1 < a.size(); ++i) if (option(a[i]) && !option(a[i + 1])) m[a[i].substr(1)] = a[i + 1]; }
static void run(Ctx& c, rofl::ParamMap& p, const std::vector<std::string>& a) {
    std::vector<std::vector<char>> buf; std::vector<char*> argv;
    for (auto& s : a) buf.emplace_back(s.c_str(), s.c_str() + s.size() + 1);
    for (auto& b : buf) argv.push_back(b.data());
    c.step();
    // argv[argc] exists and is null, as in a program
    argv.push_back(nullptr);
    REQUIRE(c, p.read((int)a.size(), argv.data()), "read of a command line failed");
    for (size_t i = 0; i < a.size(); ++i) REQUIRE(c, a[i] == buf[i].data() && argv[i] == buf[i].data(), "argument " << i << " was modified");
}
static void same(Ctx& c, rofl::ParamMap& p, const M& m) {
    std::ostringstream o; p.write(o);
    size_t n = 0; for (char ch : o.str()) n += ch == '\n';
    REQUIRE(c, n == m.size(), "parameters defined: " << o.str() << " expected " << m.size());
    u64 h = 3;
    for (auto& kv : m) {
        std::string v = "?";
        REQUIRE(c, p.getParam(kv.first, v, std::string("absent")) && v == kv.second, "parameter " << kv.first << " is \"" << v << "\" expected \"" << kv.second << "\"");
        h = mc::mix(mc::mix(h, std::hash<std::string>()(kv.first)), std::hash<std::string>()(kv.second));
    }
    c.state(h);
}
static void show(Ctx& c, const std::vector<std::string>& a) { if (c.describing) for (auto& s : a) DESC(c, "'" << s << "' "); }

MC_FAMILY(arguments, "every command line of up to 5 (6) arguments after the program name over {-a, -b, x, -1, -, 7, --a}; thorough tier up to 7", 3) {
    static const std::vector<std::string> A{"-a", "x", "-1", "-b", "7", "-", "--a"};
    int n = c.range(0, c.tier(5, 6, 7));
    std::vector<std::string> a{"prog"};
    for (int i = 0; i < n; ++i) a.push_back(A[c.choose(A.size())]);
    show(c, a);
    rofl::ParamMap p; M m; expect(a, m);
    run(c, p, a); same(c, p, m);
}
MC_FAMILY(arguments_wide, "every command line of up to 3 (4) arguments over 17 forms: names of several letters, upper case, digits, negative and exponent numbers, paths, empty string, dashes; thorough tier up to 5", 2) {
    static const std::vector<std::string> A{"-a", "-Za9", "-long_name", "v", "-1.5e3", "", "-", "--", "--x", "-.5", "/tmp/-a", "a-b", "#", "-z-z", "-_a", "-A", "-9a"};
    int n = c.range(0, c.tier(3, 4, 5));
    std::vector<std::string> a{c.flag() ? "-prog" : "prog"};
    for (int i = 0; i < n; ++i) a.push_back(A[c.choose(A.size())]);
    show(c, a);
    rofl::ParamMap p; M m; expect(a, m);
    run(c, p, a); same(c, p, m);
}
MC_FAMILY(option_letters, "every first and second character 33..126 after the dash, as name and as value", 1) {
    int k = c.range(33, 126); c.bulk(94);
    DESC(c, "character " << (char)k);
    for (int j = 33; j < 127; ++j) {
        std::string o = std::string("-") + (char)k + (char)j;
        for (auto& a : std::vector<std::vector<std::string>>{{"p", o, "val"}, {"p", "-n", o}, {"p", "-n", o, "w"}, {"p", std::string("-") + (char)k, "u"}}) {
            rofl::ParamMap p; M m; expect(a, m); run(c, p, a); same(c, p, m);
        }
    }
}
MC_FAMILY(overrides, "a text, then a command line, then another text or command line: every combination of 3 sources over 2 names; the last definition wins, other parameters stay; thorough tier up to 6", 2) {
    rofl::ParamMap p; M m;
    int n = c.range(1, c.tier(4, 5, 6));
    for (int i = 0; i < n; ++i) {
        bool cli = c.flag(); int mask = c.choose(4);
        std::string v = std::to_string(10 + i), w = "w" + std::to_string(i);
        if (cli) {
            std::vector<std::string> a{"prog"};
            if (mask & 1) { a.push_back("-x"); a.push_back(v); }
            if (mask & 2) { a.push_back("-y"); a.push_back(w); }
            show(c, a); run(c, p, a); expect(a, m);
        } else {
            std::string t;
            if (mask & 1) { t += "x " + v + "\n"; m["x"] = v; }
            if (mask & 2) { t += "y " + w + "\n"; m["y"] = w; }
            DESC(c, "text(" << t << ") ");
            std::istringstream in(t); p.read(in); c.step();
        }
    }
    same(c, p, m);
}
MC_FAMILY(long_lines, "1..40 (120) options, some with two values or none, names and values of 1..300 characters, one name given again at every place", 2) {
    int n = c.range(1, c.tier(40, 120)), again = c.choose(n + 1), pat = c.choose(4); std::vector<std::string> a{"prog"};
    for (int i = 0; i < n; ++i) {
        std::string name = "-" + std::string(1 + (pat == 3 ? (i * 37) % 300 : i % 5), (char)('a' + i % 26)) + std::to_string(i); a.push_back(i && i == again ? a[1] : name);
        if (pat == 1 && i % 4 == 3) continue;
        a.push_back(std::string(1 + (pat == 3 ? (i * 53) % 300 : i % 3), (char)('A' + i % 26)) + std::to_string(i)); if (pat == 2 && i % 3 == 1) a.push_back("-" + std::to_string(i));
    }
    DESC(c, n << " options, pattern " << pat << ", option " << again << " repeats the first");
    rofl::ParamMap p; M m; expect(a, m); run(c, p, a); same(c, p, m);
}
MC_FAMILY(typed, "numbers given on the command line are read with their value: -n .. n for int, k/8 for double", 1) {
    int k = c.range(-200, 200);
    rofl::ParamMap p; std::ostringstream d; d << k / 8.0;
    DESC(c, "number " << k);
    run(c, p, {"prog", "-i", std::to_string(k), "-d", d.str()});
    int i = 1000; double x = 1000;
    REQUIRE(c, p.getParam("i", i, 5) && i == k, "int " << k << " read as " << i);
    REQUIRE(c, p.getParam("d", x, 5.0) && x == k / 8.0, "double " << k / 8.0 << " read as " << x);
    c.state(k + 1000);
}
MC_FAMILY(scale, "command lines of 127..129, 255..257, 1000, 32767..32769 and 70000 arguments, every option with a value, or every third without one", 1) {
    int n = c.pick({127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 32769, 70000}), pat = c.choose(3);
    std::vector<std::string> a{"prog"};
    for (int i = 0; (int)a.size() < n; ++i) { a.push_back("-o" + std::to_string(i)); if (pat == 0 || i % 3) a.push_back(pat == 2 ? std::to_string(-i) : "v" + std::to_string(i)); }
    DESC(c, a.size() << " arguments, pattern " << pat);
    rofl::ParamMap p; M m; expect(a, m); run(c, p, a); same(c, p, m);
}
MC_FAMILY(long_arguments, "one option and one value of 1..5 and 1999, 2000, 2001, 4095..4097, 65535..65537 and 100000 characters each, followed by another option", 2) {
    static const std::vector<int> L{1, 2, 5, 1999, 2000, 2001, 4095, 4096, 4097, 65535, 65536, 65537, 100000};
    int a = c.pick(L), b = c.pick(L); DESC(c, "option of " << a << " and value of " << b << " characters");
    std::vector<std::string> v{"prog", "-" + std::string(a, 'n'), std::string(b, '7'), "-after", "x"};
    rofl::ParamMap p; M m; expect(v, m); run(c, p, v); same(c, p, m);
}
MC_MAIN()
