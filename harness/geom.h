// Exact descriptions of floating point geometry.
#pragma once
#include "util.h"
#include <algorithm>
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
using namespace lsst::sphgeom;
// m * 2^sh as a base 2^15 number
inline std::string bigShift(double d, int minExp) {
    if (d == 0) return "[0]";
    int e; double f = std::frexp(std::fabs(d), &e); uint64_t m = (uint64_t)(f * 9007199254740992.0); e -= 53;
    int tz = __builtin_ctzll(m); m >>= tz; e += tz;
    int sh = e - minExp;
    std::string r = d < 0 ? "[-1" : "[1"; for (int k = sh / 15; k > 0; --k) r += ",0";
    unsigned __int128 v = (unsigned __int128)m << (sh % 15);
    while (v) { r += "," + std::to_string((unsigned)(v & 32767)); v >>= 15; }
    return r + "]";
}
inline int lowExp(double d) {
    if (d == 0) return 100000;
    int e; double f = std::frexp(std::fabs(d), &e); uint64_t m = (uint64_t)(f * 9007199254740992.0);
    return e - 53 + __builtin_ctzll(m);
}
// the vector times a power of two that makes it integral
inline std::string bigVec(double x, double y, double z) {
    int m = std::min(lowExp(x), std::min(lowExp(y), lowExp(z))); if (m == 100000) m = 0;
    return "[" + bigShift(x, m) + "," + bigShift(y, m) + "," + bigShift(z, m) + "]";
}
inline std::string bigVec(Vector3d const & v) { return bigVec(v.x(), v.y(), v.z()); }
inline std::string bigVec(UnitVector3d const & v) { return bigVec(v.x(), v.y(), v.z()); }
inline Vector3d randVec(Rng & g) {
    for (;;) { double x = g.real(-1, 1), y = g.real(-1, 1), z = g.real(-1, 1), n = x * x + y * y + z * z; if (n > 1e-4 && n <= 1) return Vector3d(x, y, z); }
}
