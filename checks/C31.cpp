// C31: listing of directories and time stamped names.
// QUICK: 1
// LIBS: common
#include "vclock.h"
#include <rofl/common/io.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dirent.h>
#include <ctime>
#include <set>
#include "mc.h"
using mc::Ctx;
using mc::u64;

static void rmtree(const std::string& d) {
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat s; if (!lstat(f.c_str(), &s) && S_ISDIR(s.st_mode)) rmtree(f); else unlink(f.c_str()); }
        closedir(p);
    }
    rmdir(d.c_str());
}
struct Scratch { char dir[32]; Scratch() { strcpy(dir, "/tmp/mcioXXXXXX"); if (!mkdtemp(dir)) abort(); } ~Scratch() { rmtree(dir); } };
static void touch(const std::string& f, const char* txt = "") { FILE* o = fopen(f.c_str(), "w"); if (!o) abort(); fputs(txt, o); fclose(o); }
// kinds of entries: 0 nothing, 1 empty file, 2 file, 3 directory with a file, 4 link to a file, 5 link to a directory, 6 broken link, 7 fifo, 8 socket, 9 link to a link to a file, 10 unreadable file
static bool entry(const std::string& d, const std::string& n, int kind) {
    std::string f = d + "/" + n;
    switch (kind) {
        case 1: touch(f); return true;
        case 2: touch(f, "text\n"); return true;
        case 3: if (mkdir(f.c_str(), 0755)) abort(); touch(f + "/inner"); return false;
        case 4: touch(d + "/../" + n + ".target"); if (symlink(("../" + n + ".target").c_str(), f.c_str())) abort(); return true;
        case 5: if (symlink("..", f.c_str())) abort(); return false;
        case 6: if (symlink("nowhere", f.c_str())) abort(); return false;
        case 7: if (mkfifo(f.c_str(), 0644)) abort(); return false;
        case 8: { sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, f.c_str(), sizeof a.sun_path - 1); int k = socket(AF_UNIX, SOCK_STREAM, 0); if (k < 0 || bind(k, (sockaddr*)&a, sizeof a)) abort(); close(k); return false; }
        case 9: touch(d + "/../" + n + ".t1"); if (symlink((n + ".t1").c_str(), (d + "/../" + n + ".t2").c_str()) || symlink(("../" + n + ".t2").c_str(), f.c_str())) abort(); return true;
        case 10: touch(f, "x"); chmod(f.c_str(), 0); return true;
    }
    return false;
}
static std::string norm(const std::string& s) { std::string o; for (char ch : s) if (ch != '/' || o.empty() || o.back() != '/') o += ch; return o; }
static void list(Ctx& c, const std::string& arg, const std::string& base, const std::set<std::string>& names) {
    std::vector<std::string> v, e, g; rofl::getDirectoryFiles(arg, v); c.step();
    for (auto& n : names) e.push_back(norm(base + "/" + n)); std::sort(e.begin(), e.end());
    for (auto& s : v) g.push_back(norm(s));
    REQUIRE(c, g.size() == e.size(), g.size() << " files listed, expected " << e.size());
    REQUIRE(c, std::is_sorted(v.begin(), v.end()), "the list is not sorted");
    for (size_t i = 0; i < e.size(); ++i) REQUIRE(c, g[i] == e[i], "file " << i << " is " << g[i] << ", expected " << e[i]);
    struct stat s; for (auto& f : v) REQUIRE(c, !stat(f.c_str(), &s) && S_ISREG(s.st_mode), f << " is not a file");
    u64 h = names.size(); for (auto& n : names) h = mc::mix(h, std::hash<std::string>()(n)); c.state(h);
}
MC_FAMILY(kinds, "every combination of 4 entries over {none, empty file, file, directory with content, link to file, link to directory, broken link, fifo, socket, link to a link, unreadable file}", 2) {
    Scratch s; std::string d = std::string(s.dir) + "/d"; mkdir(d.c_str(), 0755); static const char* N[4] = {"b.txt", "a", ".hidden", "Z z"}; std::set<std::string> e; 
    for (int i = 0; i < 4; ++i) { int k = c.choose(11); DESC(c, N[i] << ":" << k << " "); if (entry(d, N[i], k)) e.insert(N[i]); }
    list(c, d, d, e);
}
MC_FAMILY(names, "every subset of 12 file names (digits, cases, prefixes, blanks, UTF-8, dots), created in 2 orders", 3) {
    static const std::vector<std::string> N{"a", "b", "a1", "a10", "a2", "B", "-x", "a b", "\xc3\xa8", "..a", "a.", "0"};
    Scratch s; std::string d = std::string(s.dir) + "/d"; mkdir(d.c_str(), 0755); std::set<std::string> e; unsigned m = c.subset(c.tier(10, 12)); bool rev = c.flag(); DESC(c, "subset " << m);
    for (int k = 0; k < 12; ++k) { int i = rev ? 11 - k : k; if (m >> i & 1) { touch(d + "/" + N[i]); e.insert(N[i]); } }
    list(c, d, d, e);
}
MC_FAMILY(paths, "the same directory given absolute, relative, with a trailing slash, through a link, as \".\"; 0..4 files", 1) {
    Scratch s; std::string r = s.dir, d = r + "/d"; mkdir(d.c_str(), 0755); std::set<std::string> e; int n = c.choose(5), how = c.choose(5); DESC(c, n << " files, form " << how);
    for (int i = 0; i < n; ++i) { std::string f(1, 'e' - i); touch(d + "/" + f); e.insert(f); }
    mkdir((d + "/sub").c_str(), 0755); touch(d + "/sub/x"); if (symlink("d", (r + "/ln").c_str())) abort();
    char old[4096]; if (!getcwd(old, sizeof old)) abort();
    std::string arg = how == 0 ? d : how == 1 ? "d" : how == 2 ? d + "/" : how == 3 ? r + "/ln" : ".";
    if (chdir(how == 4 ? d.c_str() : r.c_str())) abort();
    list(c, arg, arg, e);
    if (chdir(old)) abort();
}
MC_FAMILY(many, "directories with 0..300 (0..3000) files", 1) {
    Scratch s; std::string d = std::string(s.dir) + "/d"; mkdir(d.c_str(), 0755); std::set<std::string> e; int n = c.pick({0, 1, 2, 50, 299, 300, c.tier(301, 3000)}); DESC(c, n << " files");
    for (int i = 0; i < n; ++i) { std::string f = std::to_string((i * 7919) % 10007); touch(d + "/" + f); e.insert(f); }
    list(c, d, d, e);
}
MC_FAMILY(odd_names, "file names of 1, 64, 254, 255 characters, with new lines, quotes, control and non-UTF-8 bytes, extensions, in directories named alike; subdirectories and files with the same stem; every subset of 8", 3) {
    static const std::vector<std::string> N{std::string(255, 'q'), std::string(254, 'q'), std::string(64, 'A'), "new\nline", "quo\"te'", "\x01\x7f", "\xff\xfe", "a.tar.gz"};
    Scratch s; std::string d = std::string(s.dir) + "/" + c.pick({"d", "d.txt", ".d", "with blank"}); mkdir(d.c_str(), 0755); std::set<std::string> e; unsigned m = c.subset(8); DESC(c, "directory " << d.substr(strlen(s.dir)) << " subset " << m);
    for (int i = 0; i < 8; ++i) { if (m >> i & 1) { touch(d + "/" + N[i]); e.insert(N[i]); } else if (i % 2) mkdir((d + "/" + N[i]).c_str(), 0755); }
    list(c, d, d, e);
}
// ---- stamps
static std::string two(long v, int w = 2) { std::string s = std::to_string(v); while ((int)s.size() < w) s = "0" + s; return s; }
static std::string stamp(long t, long off) {
    long s = t + off, day = s >= 0 ? s / 86400 : -((86399 - s) / 86400), sec = s - day * 86400, y = 1970, m = 1;
    auto leap = [](long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; };
    while (day < 0) { --y; day += leap(y) ? 366 : 365; }
    while (day >= (leap(y) ? 366 : 365)) { day -= leap(y) ? 366 : 365; ++y; }
    static const int L[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    while (day >= L[m - 1] + (m == 2 && leap(y))) { day -= L[m - 1] + (m == 2 && leap(y)); ++m; }
    return two(y, 4) + two(m) + two(day + 1) + "_" + two(sec / 3600) + two(sec / 60 % 60) + "_" + two(sec % 60);
}
static void zone(int z) { static const char* Z[4] = {"UTC0", "AAA-5:30", "BBB8", "CCC-14"}; setenv("TZ", Z[z], 1); tzset(); }
static const long OFF[4] = {0, 19800, -28800, 50400};
static void check(Ctx& c, long t, int z, const std::string& a, const std::string& b) {
    vwall = t * 1000000000L; std::string g = rofl::generateStampedString(a, b), w = a + stamp(t, OFF[z]) + b; c.step();
    REQUIRE(c, g == w, "time " << t << " zone " << z << ": " << g << ", expected " << w);
}
MC_FAMILY(stamp_days, "first and last second, and 12:34:56, of every day from 1970 to 2069, 4 time zones", 1) {
    int z = c.choose(4), y = c.choose(100); zone(z); c.bulk(3 * 365); c.state(mc::mix(z, y)); DESC(c, "zone " << z << " year " << 1970 + y);
    for (long d = y * 365; d < y * 365 + 391; ++d) for (long s : {0L, 86399L, 45296L}) check(c, d * 86400 + s - OFF[z], z, "", "");
}
MC_FAMILY(stamp_seconds, "every second of 4 days (leap day, end of year), UTC", 1) {
    int day = c.pick({0, 11016, 16435, 18321}), h = c.choose(24); zone(0); c.bulk(3600); c.state(mc::mix(day, h)); DESC(c, "day " << day << " hour " << h);
    for (int s = 0; s < 3600; ++s) check(c, day * 86400L + h * 3600 + s, 0, "", "");
}
MC_FAMILY(stamp_names, "every pair of prefix and postfix out of 15 (empty, paths, percent signs, blanks, 100, 256, 1000 and 5000 characters), 3 times, 4 zones; default arguments", 1) {
    static const std::vector<std::string> N{"", "log_", ".txt", "%Y", "100%", "%%", "a b", "/tmp/x/", "\\n", "2021", "%", std::string(100, 'x'), std::string(255, 'y') + "z", std::string(999, 'u') + "v", std::string(4999, 'k') + "w"};
    std::string a = c.pick(N), b = c.pick(N); int z = c.choose(4); zone(z); DESC(c, "prefix " << a << " postfix " << b); c.state(mc::mix(std::hash<std::string>()(a), mc::mix(z, std::hash<std::string>()(b))));
    for (long t : {0L, 1700000000L, 951782400L}) { check(c, t, z, a, b); vwall = t * 1000000000L; REQUIRE(c, rofl::generateStampedString() == stamp(t, OFF[z]) && rofl::generateStampedString(a) == a + stamp(t, OFF[z]), "default arguments"); }
}
// Daylight saving time: two zones, northern and southern.
MC_FAMILY(stamp_dst, "every 30 minutes of the years 2019 and 2020 in zones with daylight saving time, northern and southern", 1) {
    int z = c.choose(2), m = c.choose(24); setenv("TZ", z ? "SSS3SSD,M10.3.0/0,M2.3.0/0" : "CET-1CEST,M3.5.0,M10.5.0/3", 1); tzset();
    // transitions (UTC seconds): northern 2019-03-31 01:00, 2019-10-27 01:00, 2020-03-29 01:00, 2020-10-25 01:00
    static const long NT[4] = {1553994000, 1572138000, 1585443600, 1603587600};
    // southern: 2019-02-17 00:00 daylight time (UTC-2) = 02:00 UTC, 2019-10-20 03:00 UTC, 2020-02-16 02:00 UTC, 2020-10-18 03:00 UTC
    static const long ST[4] = {1550368800, 1571540400, 1581818400, 1602990000};
    long base = 1546300800 + m * 30L * 86400 + m * 43200; c.bulk(1464); c.state(mc::mix(z + 70, m)); DESC(c, "zone " << z << " from " << base);
    for (long t = base; t < base + 31 * 86400L; t += 1800) for (long d : {0L, 1799L}) {
        long u = t + d, off; int k = 0; const long* T = z ? ST : NT; while (k < 4 && u >= T[k]) ++k;
        if (z == 0) off = k % 2 ? 7200 : 3600; else off = k % 2 ? -10800 : -7200;
        vwall = u * 1000000000L; std::string g = rofl::generateStampedString("p", "q"), w = "p" + stamp(u, off) + "q"; c.step();
        REQUIRE(c, g == w, "time " << u << " zone " << z << ": " << g << ", expected " << w);
    }
}
MC_MAIN()
