// Records answers of the orientation predicates (spec/TraceOrientation.tla).
#include "geom.h"
#include "lsst/sphgeom/orientation.h"
static std::ofstream os;
typedef UnitVector3d U;
static U raw(double x, double y, double z) { return U::fromNormalized(Vector3d(x, y, z)); }
static void abc(U const & a, U const & b, U const & c) {
    J ev('['), od('[');
    ev.num(orientation(a, b, c)).num(orientation(b, c, a)).num(orientation(c, a, b)).num(orientation(-a, -b, c)).num(orientation(a, -b, -c)).num(orientation(-a, b, -c));
    ev.num(orientationExact(a, b, c)).num(orientationExact(b, c, a)).num(orientationExact(c, a, b));
    od.num(orientation(b, a, c)).num(orientation(a, c, b)).num(orientation(c, b, a)).num(orientation(-a, b, c)).num(orientation(a, -b, c)).num(orientation(a, b, -c)).num(orientation(-a, -b, -c));
    od.num(orientationExact(b, a, c)).num(orientationExact(-a, -b, -c));
    os << J('{').skey("op", "abc").key("a", bigVec(a)).key("b", bigVec(b)).key("c", bigVec(c)).key("even", ev.done()).key("odd", od.done()).done() << "\n";
}
static void axis(int k, U const & b, U const & c) {
    auto f = [&](U const & p, U const & q) { return k == 1 ? orientationX(p, q) : k == 2 ? orientationY(p, q) : orientationZ(p, q); };
    U x = k == 1 ? U::X() : k == 2 ? U::Y() : U::Z();
    J ev('['), od('['); ev.num(f(b, c)).num(f(-b, -c)).num(orientation(x, b, c)).num(orientationExact(x, b, c)); od.num(f(c, b)).num(f(-b, c)).num(f(b, -c)).num(orientation(b, x, c));
    os << J('{').skey("op", "axis").key("axis", k).key("b", bigVec(b)).key("c", bigVec(c)).key("even", ev.done()).key("odd", od.done()).done() << "\n";
}
static double jitter(Rng & g, double d, int ulps) { int k = g.range(-ulps, ulps); for (; k > 0; --k) d = std::nextafter(d, 4); for (; k < 0; ++k) d = std::nextafter(d, -4); return d; }
static U jitter(Rng & g, U const & u, int n) { return raw(jitter(g, u.x(), n), jitter(g, u.y(), n), jitter(g, u.z(), n)); }
static double tiny(Rng & g) {
    int e; switch (g.below(5)) { case 0: return 0; case 1: e = g.range(-1074, -900); break; case 2: e = g.range(-560, -500); break; case 3: e = g.range(-60, -10); break; default: e = g.range(-1074, -1); break; }
    double m = g.chance(0.5) ? (double)g.range(1, 7) : (double)((g.next() >> 11) | 1); double r = std::ldexp(m, std::min(e, -1) - (m > 8 ? 53 : 3)); return g.chance(0.5) ? r : -r;
}
// nearly axis-aligned or nearly planar vector of unit length
static U tinyVec(Rng & g) {
    double t = tiny(g), u = tiny(g); int k = g.below(6);
    if (k < 3) { double s = g.chance(0.5) ? 1 : -1; return k == 0 ? raw(s, t, u) : k == 1 ? raw(t, s, u) : raw(t, u, s); }
    double a = g.real(0, 6.3), c = std::cos(a), s = std::sin(a); return k == 3 ? raw(c, s, t) : k == 4 ? raw(c, t, s) : raw(t, c, s);
}
// exactly dependent vectors: the (y,z) parts are proportional by a power of two
static U follow(Rng & g, U const & b) { double q = std::ldexp(1.0, -g.range(0, 40)) * (g.chance(0.5) ? 1 : -1); double y = b.y() * q, z = b.z() * q; return raw((g.chance(0.5) ? 1 : -1) * std::sqrt(std::max(0.0, 1 - y * y - z * z)), y, z); }
static U perm(int k, double x, double y, double z) { return k == 0 ? raw(x, y, z) : k == 1 ? raw(z, x, y) : raw(y, z, x); }
static double pw(Rng & g, int k) { return std::ldexp(g.chance(0.5) ? 1 + g.uni() : 1.0, -k) * (g.chance(0.5) ? 1 : -1); }
// products of very different magnitude whose largest pair nearly cancels
static void cancel(Rng & g, U & a, U & b, U & c) {
    int p = g.below(3), tot = g.range(44, 60), k = g.range(1, tot - 1), l = g.range(0, 6); double t = g.real(0, 6.3), x = std::cos(t), y = std::sin(t); int j = g.range(0, 3);
    a = perm(p, x, y, pw(g, g.chance(0.5) ? k : k + g.range(0, 60))); b = perm(p, jitter(g, x, j), jitter(g, y, j), pw(g, k)); c = perm(p, pw(g, tot - k + l), pw(g, tot - k + g.range(0, 60)), g.chance(0.5) ? 1 : -1);
    if (g.chance(0.5)) std::swap(a, c); if (g.chance(0.5)) std::swap(b, c);
}
// everything but one component so small that products underflow
static void under(Rng & g, U & a, U & b, U & c) {
    int k = g.range(490, 545), p = g.below(3); auto t = [&]() { return std::ldexp((g.chance(0.5) ? g.range(1, 9) : g.real(1, 2)) * (g.chance(0.5) ? 1 : -1), -(g.chance(0.7) ? k : g.range(480, 1070))); };
    a = perm(p, g.chance(0.5) ? 1 : -1, t(), t()); b = perm(p, 1, t(), t()); c = perm(p, 1, t(), t());
    if (g.chance(0.5)) c = perm(p, 1, jitter(g, 2 * b.y() - a.y(), 1), jitter(g, 2 * b.z() - a.z(), 1));
}
int main(int, char ** v) {
    os.open(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]);
    std::vector<U> pool; for (int i = 0; i < 12; ++i) pool.push_back(U(randVec(g)));
    for (int i = 0; i < n; ++i) {
        U a(randVec(g)), b(randVec(g)), c(randVec(g));
        switch (i % 12) {
            case 0: break;
            case 1: case 2: c = jitter(g, U(Vector3d(a) * g.real(-1, 1) + Vector3d(b) * g.real(-1, 1)), 2); break;
            case 3: a = tinyVec(g); b = tinyVec(g); c = tinyVec(g); break;
            case 4: a = tinyVec(g); c = jitter(g, U(Vector3d(a) * g.real(-1, 1) + Vector3d(b) * std::ldexp(1.0, -g.range(0, 60))), 1); break;
            case 5: b = jitter(g, a, 1); c = jitter(g, g.chance(0.5) ? a : -a, 2); break;
            case 6: a = U(1, 0, 0); b = jitter(g, tinyVec(g), 1); c = follow(g, b); if (g.chance(0.5)) c = jitter(g, c, 1); break;
            case 7: a = pool[g.below(12)]; b = pool[g.below(12)]; c = g.chance(0.5) ? pool[g.below(12)] : -pool[g.below(12)]; break;
            case 8: case 9: cancel(g, a, b, c); break;
            case 10: under(g, a, b, c); break;
            default: b = U(Vector3d(a) + randVec(g) * std::ldexp(1.0, -g.range(1, 52))); c = U(Vector3d(a) + randVec(g) * std::ldexp(1.0, -g.range(1, 52))); break;
        }
        abc(a, b, c);
        int k = g.range(1, 3); U p = b, q = c;
        if (g.chance(0.5)) { p = tinyVec(g); double s = g.real(-1, 1), t = std::ldexp(g.real(-1, 1), -g.range(0, 30)); Vector3d e(k == 1, k == 2, k == 3); q = jitter(g, U(e * s + Vector3d(p) * t), g.range(0, 2)); }
        axis(k, p, q);
    }
    return 0;
}
