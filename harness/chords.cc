// Distance bounds, chord conversions and centroids (spec/TraceChord.tla).
#include "sphere.h"
#include "lsst/sphgeom/utils.h"
static std::ofstream os;
static std::string dr(double d) { return J('{').key("d", bigL(d, 75)).key("r", bigL(sqrtl((LD)d), 60)).done(); }
static std::string big150(Vector3d const & v) { return "[" + bigL(v.x(), 150) + "," + bigL(v.y(), 150) + "," + bigL(v.z(), 150) + "]"; }
static std::string big75(U const & v) { return "[" + bigL(v.x(), 75) + "," + bigL(v.y(), 75) + "," + bigL(v.z(), 75) + "]"; }
static double len(Rng & g) { return g.chance(0.6) ? g.real(0.01, 3.1) : g.chance(0.3) ? M_PI - std::pow(10, g.real(-6, -1)) : std::pow(10, g.real(-12, 0)); }
static void edge(Rng & g) {
    U a = place(g), b = near(g, a, len(g)), v; Vector3d n = a.robustCross(b); if (a == b || n == Vector3d() || a == -b) return;
    switch (g.below(8)) {
        case 0: v = g.chance(0.5) ? a : b; if (g.chance(0.5)) v = -v; break;
        case 1: v = near(g, g.chance(0.5) ? a : b, std::pow(10, g.real(-14, 0))); if (g.chance(0.5)) v = -v; break;
        case 2: { double t = g.uni(); v = U(Vector3d(a) * t + Vector3d(b) * (1 - t)); if (g.chance(0.7)) v = near(g, v, std::pow(10, g.real(-16, 0))); if (g.chance(0.4)) v = -v; break; }
        case 3: v = near(g, U(n), std::pow(10, g.real(-10, 0))); if (g.chance(0.5)) v = -v; break;
        case 4: { U w(Vector3d(g.chance(0.5) ? a : b)); v = step(w, U(n), g.real(-3, 3)); break; } // above an end
        default: v = place(g);
    }
    if (g.chance(0.3) && a.dot(b) < 0.99 && a.dot(b) > -0.99) n = a.cross(b);
    if (g.chance(0.5)) n.normalize();
    Vector3d w = v; double d1 = getMinSquaredChordLength(w, a, b, n), d2 = getMaxSquaredChordLength(w, a, b, n);
    double q1 = (v - a).getSquaredNorm(), q2 = (v - b).getSquaredNorm();
    os << J('{').skey("op", "edge").key("v", bigVec(v)).key("a", bigVec(a)).key("b", bigVec(b)).key("min", dr(d1)).key("max", dr(d2)).key("near", dr(std::min(d1, std::min(q1, q2)))).key("far", dr(std::max(d2, std::max(q1, q2)))).done() << "\n";
    if (g.chance(0.2)) { double s = std::ldexp(1.0, g.range(-20, 20)), t = std::ldexp(1.0, g.range(-20, 20)); if (getMinSquaredChordLength(w * s, Vector3d(a) * t, Vector3d(b), n * t) != d1 || getMaxSquaredChordLength(w * s, a, Vector3d(b) * s, n * t) != d2) { std::cerr << "scaling the arguments matters\n"; exit(3); } }
}
static void lat(Rng & g) {
    auto pick = [&](double o) { switch (g.below(6)) { case 0: return M_PI / 2 * g.range(-1, 1); case 1: return o; case 2: return -o; case 3: return std::pow(10, g.real(-18, 0)) * (g.chance(0.5) ? 1 : -1); default: return g.real(-M_PI / 2, M_PI / 2); } };
    double x = pick(0.25), c = pick(x); Angle lo = getMinAngleToCircle(Angle(x), Angle(c)), hi = getMaxAngleToCircle(Angle(x), Angle(c));
    os << J('{').skey("op", "lat").key("x", bigL(x, 60)).key("c", bigL(c, 60)).key("min", bigL(lo.asRadians(), 60)).key("max", bigL(hi.asRadians(), 60)).done() << "\n";
}
static void conv(Rng & g) {
    std::vector<double> v = {-1e300, -1, -5e-324, -0.0, 0, 5e-324, 1e-300, M_PI, std::nextafter(M_PI, 0), std::nextafter(M_PI, 4), M_PI / 2, 4, 1e300}; if (g.chance(0.9)) v.clear();
    for (int k = 0; k < 12; ++k) { double a = g.chance(0.3) ? std::pow(10, g.real(-17, 0)) : g.chance(0.3) ? M_PI - std::pow(10, g.real(-16, 0)) : g.real(0, M_PI); v.push_back(a); if (g.chance(0.4)) v.push_back(std::nextafter(a, g.chance(0.5) ? 9 : -9)); }
    std::sort(v.begin(), v.end()); J a('['), d('['), r('['), h('['), f('[');
    auto bl = [](double x, int s) { return x > 1e6 ? bigL(1e6, s) : x < -1e6 ? bigL(-1e6, s) : x < 0 && x > -1e-6 ? bigL(-1e-6, s) : bigL(x, s); };
    for (double x : v) { double q = Circle::squaredChordLengthFor(Angle(x)); Angle b = Circle::openingAngleFor(q); Circle k(U::X(), Angle(x)); if (k.getSquaredChordLength() != q || (x <= M_PI && k.getOpeningAngle() != Angle(x) && !k.isEmpty() && !k.isFull())) { std::cerr << "circle\n"; exit(3); }
        a.raw(bl(x, 60)); d.raw(bl(q, 120)); r.raw(bl(b.asRadians(), 60)); h.raw(x < 0 || x > 4 ? "[[0],[0]]" : dirJ(0.5L * x)); f.raw(boolj(x >= M_PI)); }
    os << J('{').skey("op", "conv").key("a", a.done()).key("d", d.done()).key("r", r.done()).key("h", h.done()).key("full", f.done()).done() << "\n";
}
static void cen(Rng & g) {
    double r = g.chance(0.5) ? std::pow(10, g.real(-12, 0)) : g.real(0.01, 1.4); U c = place(g), t = tangent(g, c), b(c.cross(t)); double p0 = g.real(0, 6.3), w[3]; bool fat = !g.chance(0.2);
    w[0] = p0; if (fat) { w[1] = p0 + g.real(1.2, 2.4); w[2] = w[1] + g.real(1.2, 2.4); } else { w[1] = p0 + g.real(0.01, 3); w[2] = w[1] + g.real(0.01, 3); }
    U v[3]; for (int k = 0; k < 3; ++k) { double q = r * (fat ? g.real(0.5, 1) : g.uni()); v[k] = step(c, U(Vector3d(t) * std::cos(w[k]) + Vector3d(b) * std::sin(w[k])), q); }
    double s = g.real(0.1, 1), u = g.real(0.1, 1), z = g.real(0.1, 1); U p(Vector3d(v[0]) * s + Vector3d(v[1]) * u + Vector3d(v[2]) * z);
    double m2 = std::max((v[0] - v[1]).getSquaredNorm(), std::max((v[1] - v[2]).getSquaredNorm(), (v[2] - v[0]).getSquaredNorm())); if (m2 == 0) return;
    int m = (int)std::floor(-0.5 * std::log2(m2)); if (r < 1e-11) fat = false;
    os << J('{').skey("op", "cen").key("fat", fat).key("m", m).key("v", "[" + big75(v[0]) + "," + big75(v[1]) + "," + big75(v[2]) + "]").key("c", big150(getWeightedCentroid(v[0], v[1], v[2])))
        .key("parts", "[" + big150(getWeightedCentroid(p, v[0], v[1])) + "," + big150(getWeightedCentroid(p, v[1], v[2])) + "," + big150(getWeightedCentroid(p, v[2], v[0])) + "]")
        .key("rev", big150(getWeightedCentroid(v[1], v[0], v[2]))).key("rot", big150(getWeightedCentroid(v[1], v[2], v[0]))).done() << "\n";
}
static void poly(Rng & g) {
    double r = std::pow(10, g.real(-12, 0.2)); U c = place(g); Shape s = genPoly(g, c, r); auto & q = dynamic_cast<ConvexPolygon const &>(*s.r); J v('['); double m2 = 0, area = 0; auto & w = q.getVertices();
    for (size_t k = 0; k < w.size(); ++k) { v.raw(big75(w[k])); m2 = std::max(m2, (w[k] - w[0]).getSquaredNorm()); if (k > 1) area += 0.5 * std::fabs((w[k] - w[0]).cross(w[k - 1] - w[0]).getNorm()); }
    int tol = m2 < 0.2e-10 ? 49 : (int)std::floor(std::min(44.0, 46 + std::log2(area) - 0.5 * std::log2(m2))); if (tol < 5) return;
    os << J('{').skey("op", "poly").key("v", v.done()).key("c", big75(q.getCentroid())).key("tol", tol).done() << "\n";
}
int main(int, char ** v) {
    os.open(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]);
    U x[3] = {U::X(), U::Y(), U::Z()}; for (int k = 0; k < 3; ++k) os << J('{').skey("op", "octant").key("c", big150(getWeightedCentroid(x[k], x[(k + 1) % 3], x[(k + 2) % 3]))).done() << "\n";
    for (int i = 0; i < n; ++i) { edge(g); edge(g); edge(g); edge(g); lat(g); cen(g); if (i % 4 == 0) { conv(g); } poly(g); }
    return 0;
}
