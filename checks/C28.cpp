// C28: geographic conversions against the WGS84 ellipsoid in extended precision.
// QUICK: 1
// LIBS: common geometry
#include <rofl/geometry/gis.h>
#include "mc.h"
using mc::Ctx;
using mc::u64;
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L, AA = 6378137.0L, E2 = 0.00669437999014L, DEG = PI / 180;

static void ecef(Ctx& c, float lat, float lon, float alt) {
    float x = 9, y = 9, z = 9; rofl::convertLatLonAltToECEF(lat, lon, alt, x, y, z); c.step();
    L s = sinl(lat * DEG), k = cosl(lat * DEG), N = AA / sqrtl(1 - E2 * s * s), X = (N + alt) * k * cosl(lon * DEG), Y = (N + alt) * k * sinl(lon * DEG), Z = (N * (1 - E2) + alt) * s;
    L e = std::max({fabsl(x - X), fabsl(y - Y), fabsl(z - Z)});
    REQUIRE(c, e <= 3.0L + fabsl(alt) * 1e-6L, "lat " << lat << " lon " << lon << " alt " << alt << " gives " << x << " " << y << " " << z << ", expected " << (double)X << " " << (double)Y << " " << (double)Z);
}
static L arcLat(L lat) { L s = sinl(lat * DEG); return AA * (1 - E2) / powl(1 - E2 * s * s, 1.5L) * DEG; }
static L arcLon(L lat) { L s = sinl(lat * DEG); return AA / sqrtl(1 - E2 * s * s) * cosl(lat * DEG) * DEG; }
static void local(Ctx& c, float la0, float lo0, float la, float lo) {
    float x = 9, y = 9, la1 = 9, lo1 = 9; rofl::convertLatLonToLocalXY(la0, lo0, la, lo, x, y); rofl::convertLocalXYToLatLon(la0, lo0, x, y, la1, lo1); c.step(2);
    L dx = (L)lo - lo0, dy = (L)la - la0, X = dx * arcLon(la0), Y = dy * arcLat(la0), ulp = 1.6e-5L;  // degrees
    REQUIRE(c, fabsl(x - X) <= 3e-4L * fabsl(X) + fabsl(dx) * 8 + ulp * 1e5L * (dx != 0), "origin " << la0 << "," << lo0 << " point " << la << "," << lo << ": x is " << x << " m, the arc of parallel is " << (double)X);
    REQUIRE(c, fabsl(y - Y) <= 3e-4L * fabsl(Y) + ulp * 1e5L * (dy != 0), "origin " << la0 << "," << lo0 << " point " << la << "," << lo << ": y is " << y << " m, the arc of meridian is " << (double)Y);
    REQUIRE(c, fabsl(la1 - (L)la) <= 2 * ulp + fabsl(dy) * 1e-6L && fabsl(lo1 - (L)lo) <= 2 * ulp + fabsl(dx) * 1e-6L, "origin " << la0 << "," << lo0 << " point " << la << "," << lo << " comes back as " << la1 << "," << lo1);
}
MC_FAMILY(degrees, "length of a degree of latitude and longitude at latitudes -90..90 by 1/16 (1/256); thorough tier up to 2048", 1) {
    int k = c.range(-90, 90), n = c.tier(16, 256, 2048); c.bulk(n);
    for (int i = 0; i < n; ++i) {
        float la = k + i / (float)n; if (la > 90) break;
        double a = rofl::meterPerDegLat(la), o = rofl::meterPerDegLon(la); c.step(2);
        REQUIRE(c, std::fabs(a - (double)arcLat(la)) <= 12, "degree of latitude at " << la << " is " << a << " m, on the ellipsoid " << (double)arcLat(la));
        REQUIRE(c, std::fabs(o - (double)arcLon(la)) <= 8, "degree of longitude at latitude " << la << " is " << o << " m, on the ellipsoid " << (double)arcLon(la));
    }
    c.state(k); DESC(c, "latitudes from " << k);
}
MC_FAMILY(ecef_grid, "latitudes -90..90 by 5 (2), longitudes -180..180 by 5 (2), 7 altitudes from -11000 to 400000 m; thorough tier up to 1", 1) {
    int st = c.tier(5, 2, 1), la = -90 + st * c.choose(180 / st + 1); c.bulk(7 * (360 / st + 1));
    for (int lo = -180; lo <= 180; lo += st) for (float al : {0.f, 1000.f, -11000.f, 8848.f, 100.5f, 100000.f, 400000.f}) { ecef(c, la, lo, al); }
    c.state(la); DESC(c, "latitude " << la);
}
MC_FAMILY(ecef_fine, "latitudes and longitudes off the degree: 0.37 and 0.59 degree offsets over the whole grid by 3 (1) degrees", 1) {
    int st = c.tier(3, 1), la = -90 + st * c.choose(180 / st); c.bulk(360 / st);
    for (int lo = -180; lo < 180; lo += st) ecef(c, la + 0.37f, lo + 0.59f, 33.f * (lo + 180)); c.state(la); DESC(c, "latitude " << la);
}
MC_FAMILY(local_grid, "origins with latitude -84..84 by 4 (2) and longitude -176..176 by 8 (4), 121 displacements up to 2 degrees each way, signs included; thorough tier up to 1", 1) {
    int st = c.tier(4, 2, 1), la = -84 + st * c.choose(168 / st + 1), lo = -176 + 2 * st * c.choose(352 / (2 * st) + 1); c.bulk(121);
    static const float D[11] = {0, 0.001f, 0.01f, 0.125f, 0.5f, 2.f, -0.001f, -0.01f, -0.125f, -0.5f, -2.f};
    for (float dx : D) for (float dy : D) local(c, la, lo, la + dy, lo + dx);
    c.state(mc::mix(la + 90, lo + 180)); DESC(c, "origin " << la << "," << lo);
}
MC_FAMILY(local_metres, "from metres to degrees and back: 81 displacements of 1 to 10000 m from origins by 12 (6) degrees; thorough tier up to 2", 1) {
    int st = c.tier(12, 6, 2), la = -84 + st * c.choose(168 / st + 1), lo = -168 + 2 * st * c.choose(336 / (2 * st) + 1); c.bulk(81);
    static const float D[9] = {0, 1, 10, 500, 10000, -1, -10, -500, -10000};
    for (float x : D) for (float y : D) {
        float a = 9, o = 9; rofl::convertLocalXYToLatLon(la, lo, x, y, a, o); c.step();
        L A = la + y / arcLat(la), O = lo + x / arcLon(la);
        REQUIRE(c, fabsl(a - A) <= 2e-5L + 3e-4L * fabsl(y) / 110000 && fabsl(o - O) <= 2e-5L + 4e-3L * fabsl(O - lo), "origin " << la << "," << lo << " x " << x << " y " << y << " gives " << a << "," << o << ", expected " << (double)A << "," << (double)O);
    }
    c.state(mc::mix(la + 90, lo + 180)); DESC(c, "origin " << la << "," << lo);
}
MC_MAIN()
