// Random regions, their exact descriptions for spec/Sphere.tla, and witness points near their boundaries.
#pragma once
#include "geom.h"
#include <functional>
#include <memory>
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Region.h"

typedef UnitVector3d U;
typedef long double LD;
static const LD PIL = 3.14159265358979323846264338327950288L;

// floor(|x| * 2^scale) with the sign of x
inline std::string bigL(LD x, int scale) {
    if (x == 0 || !(x == x)) return "[0]";
    int sg = x < 0 ? -1 : 1, e; LD f = frexpl(fabsl(x), &e); uint64_t m = (uint64_t)ldexpl(f, 64); e += scale - 64;
    if (e < 0) { m = e <= -64 ? 0 : m >> -e; e = 0; }
    if (!m) return "[0]";
    std::string r = "[" + std::to_string(sg); for (int k = e / 15; k > 0; --k) r += ",0";
    unsigned __int128 v = (unsigned __int128)m << (e % 15);
    while (v) { r += "," + std::to_string((unsigned)(v & 32767)); v >>= 15; }
    return r + "]";
}
struct LV { LD x, y, z; };
inline LV lv(Vector3d const & v) { return {v.x(), v.y(), v.z()}; }
inline LV lv(U const & v) { return {v.x(), v.y(), v.z()}; }
inline LV norm(LV v) { LD n = sqrtl(v.x * v.x + v.y * v.y + v.z * v.z); return {v.x / n, v.y / n, v.z / n}; }
inline std::string ptJ(LV v) { v = norm(v); return "[" + bigL(v.x, 75) + "," + bigL(v.y, 75) + "," + bigL(v.z, 75) + "]"; }
inline std::string ptJ(U const & v) { return ptJ(lv(v)); }
inline std::string dirJ(LD c, LD s) { return "[" + bigL(c, 60) + "," + bigL(s, 60) + "]"; }
inline std::string dirJ(LD a) { return dirJ(cosl(a), sinl(a)); }

// descriptions
inline std::string circleJ(U const & c, LD scl) {
    LD o = scl < 0 ? 0 : scl > 4 ? 4 : scl;
    return J('{').skey("k", "circle").key("c", ptJ(c)).key("s", bigL(scl, 150)).key("o", dirJ(1 - o / 2, sqrtl(o * (1 - o / 4)))).done();
}
inline std::string circleAngleJ(U const & c, LD a) { if (a < 0) return circleJ(c, -1); if (a >= (LD)M_PI) return circleJ(c, 4); LD s = sinl(a / 2); return circleJ(c, 4 * s * s); }
inline std::string describe(Circle const & c) { return circleJ(c.getCenter(), c.isEmpty() ? -1 : (LD)c.getSquaredChordLength()); }
inline std::string describe(Box const & b) {
    bool e = b.isEmpty(); double lo = e ? 0 : b.getLat().getA().asRadians(), hi = e ? 0 : b.getLat().getB().asRadians();
    double a = e ? 0 : b.getLon().getA().asRadians(), z = e ? 0 : b.getLon().getB().asRadians();
    return J('{').skey("k", "box").key("e", e).key("full", !e && b.getLon().isFull()).key("a", dirJ(a)).key("b", dirJ(z)).key("lo", dirJ(lo)).key("hi", dirJ(hi))
        .key("lop", lo <= -0.5 * M_PI).key("hip", hi >= 0.5 * M_PI).done();
}
inline std::string polyJ(std::vector<U> const & v) { J l('['); for (auto const & u : v) l.raw(ptJ(u)); return J('{').skey("k", "poly").key("v", l.done()).done(); }
inline std::string describe(ConvexPolygon const & p) { return polyJ(p.getVertices()); }
// the points whose distances to f and g add up to at most 2 alpha
inline std::string ellJ(LV f, LV g, LD alpha) {
    LD w = 2 * alpha; bool e = false, full = false; f = norm(f); g = norm(g);
    LD dx = f.x - g.x, dy = f.y - g.y, dz = f.z - g.z, sx = f.x + g.x, sy = f.y + g.y, sz = f.z + g.z;
    LD d = 2 * atan2l(sqrtl(dx * dx + dy * dy + dz * dz), sqrtl(sx * sx + sy * sy + sz * sz)); // distance of the foci
    if (w < d - 1e-15L || !(w == w)) e = true; else if (w >= 2 * PIL - d + 1e-15L) full = true; // otherwise at least a segment (or all but one)
    return J('{').skey("k", "ell").key("f", ptJ(f)).key("g", ptJ(g)).key("c", bigL(cosl(w), 60)).key("s", bigL(sinl(w), 60)).key("half", w > PIL).key("e", e).key("full", full).done();
}
inline std::string noneJ() { return J('{').skey("k", "none").done(); }
inline std::string describe(Region const & r);
inline std::string describe(Ellipse const & e) {
    if (e.isEmpty()) return noneJ();
    if (e.isFull()) return J('{').skey("k", "all").done();
    // foci from the semi-axes, more accurately than from gamma
    LD a = e.getAlpha().asRadians(), b = e.getBeta().asRadians(); Matrix3d const & S = e.getTransformMatrix();
    LD cb = cosl(b), q = sinl(a + b) * sinl(a - b); LD sg = cb == 0 ? 0 : sqrtl(fabsl(q)) / fabsl(cb); if (sg > 1) sg = 1; if (cb == 0) sg = sinl((LD)e.getGamma().asRadians());
    LD cg = sqrtl(1 - sg * sg);
    LV f = {cg * S(2, 0) + sg * S(0, 0), cg * S(2, 1) + sg * S(0, 1), cg * S(2, 2) + sg * S(0, 2)}, g = {cg * S(2, 0) - sg * S(0, 0), cg * S(2, 1) - sg * S(0, 1), cg * S(2, 2) - sg * S(0, 2)};
    return ellJ(f, g, a);
}
inline std::string describe(Region const & r) {
    if (auto p = dynamic_cast<Circle const *>(&r)) return describe(*p);
    if (auto p = dynamic_cast<Box const *>(&r)) return describe(*p);
    if (auto p = dynamic_cast<Ellipse const *>(&r)) return describe(*p);
    if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) return describe(*p);
    auto p = dynamic_cast<CompoundRegion const *>(&r);
    return J('{').skey("k", dynamic_cast<UnionRegion const *>(&r) ? "union" : "inter").key("r", "[" + describe(p->getOperand(0)) + "," + describe(p->getOperand(1)) + "]").done();
}

// ---- generation
struct Shape { std::shared_ptr<Region> r; std::string d; };
inline U unit(Vector3d const & v) { return U(v); }
inline U tangent(Rng & g, U const & c) { for (;;) { Vector3d r = randVec(g); Vector3d t = r - Vector3d(c) * r.dot(c); if (t.getSquaredNorm() > 1e-3) return U(t); } }
inline U step(U const & c, U const & t, double a) { return U(Vector3d(c) * std::cos(a) + Vector3d(t) * std::sin(a)); }
inline U near(Rng & g, U const & c, double a) { return a == 0 ? c : step(c, tangent(g, c), a); }
inline U special(Rng & g) { static const double s = std::sqrt(0.5); switch (g.below(8)) { case 0: return U::Z(); case 1: return -U::Z(); case 2: return U::X(); case 3: return -U::X(); case 4: return U(0, g.chance(0.5) ? 1 : -1, 0); case 5: return U(s, 0, s); case 6: return U(1, g.chance(0.5) ? 1 : -1, g.chance(0.5) ? 1 : -1); default: return U(Angle(g.real(0, 6.28)), Angle(0)); } }
inline U place(Rng & g) { return g.chance(0.25) ? special(g) : g.chance(0.15) ? near(g, special(g), std::pow(10, g.real(-12, -0.5))) : U(randVec(g)); }
// a size in radians, mostly 1e-3 .. pi/2
inline double size(Rng & g, double lo = 1e-6) { double r = g.uni(); return r < 0.5 ? g.real(0.05, 1.5) : r < 0.8 ? std::pow(10, g.real(-3, 0)) : std::pow(10, g.real(std::log10(lo), 0)); }
inline Shape mkCircle(U const & c, double a) { return {std::make_shared<Circle>(c, Angle(a)), circleAngleJ(c, a)}; }
inline Shape mkBox(double lon1, double lon2, double lat1, double lat2) {
    auto b = std::make_shared<Box>(NormalizedAngleInterval(NormalizedAngle(lon1), NormalizedAngle(lon2)), AngleInterval(Angle(lat1), Angle(lat2)));
    return {b, describe(*b)};
}
inline Shape mkEll(U const & c, double a, double b, double ori) {
    // definition: the semi-axis a points from c in the direction of position angle ori (east of north)
    Ellipse e{c, Angle(a), Angle(b), Angle(ori)};
    Vector3d n(-c.x() * c.z(), -c.y() * c.z(), c.x() * c.x() + c.y() * c.y()); LV N, E; LV C = norm(lv(c));
    if (n.getSquaredNorm() < 1e-20) { U u = U::northFrom(c); N = lv(u); } else N = {-C.x * C.z, -C.y * C.z, C.x * C.x + C.y * C.y};
    N = norm(N); E = {N.y * C.z - N.z * C.y, N.z * C.x - N.x * C.z, N.x * C.y - N.y * C.x}; // north x centre = east
    bool small = a < M_PI / 2; LD al = a, be = b, th = ori; if (small ? b > a : b < a) { std::swap(al, be); th += PIL / 2; }
    if (a < 0 || b < 0) return {std::make_shared<Ellipse>(e), noneJ()};
    if (a > M_PI || b > M_PI) return {std::make_shared<Ellipse>(e), J('{').skey("k", "all").done()};
    LD cb = cosl(be), sg = sqrtl(fabsl(sinl(al + be) * sinl(al - be))) / fabsl(cb), cg = sqrtl(1 - sg * sg), ct = cosl(th), st = sinl(th);
    LV D = {N.x * ct + E.x * st, N.y * ct + E.y * st, N.z * ct + E.z * st};
    LV f = {C.x * cg + D.x * sg, C.y * cg + D.y * sg, C.z * cg + D.z * sg}, h = {C.x * cg - D.x * sg, C.y * cg - D.y * sg, C.z * cg - D.z * sg};
    return {std::make_shared<Ellipse>(e), ellJ(f, h, al)};
}
inline Shape mkFoci(U const & f, U const & g, double a) { return {std::make_shared<Ellipse>(f, g, Angle(a)), ellJ(lv(f), lv(g), a)}; }
inline Shape mkPoly(std::vector<U> const & v) { auto p = std::make_shared<ConvexPolygon>(v); return {p, describe(*p)}; }
// a convex polygon around c with vertices at distances up to a (< pi/2)
inline Shape genPoly(Rng & g, U const & c, double a) {
    a = std::min(a, 1.45); U t = tangent(g, c); U b(c.cross(t));
    if (g.chance(0.12)) try { // an edge close to a coordinate plane, with its extreme point in the middle
        U ax = g.chance(0.5) ? U::Z() : g.chance(0.5) ? U::X() : U::Y(); if (g.chance(0.5)) ax = -ax;
        U n = near(g, ax, std::pow(10, g.real(-12, -2))); U m(Vector3d(ax) - Vector3d(n) * ax.dot(n)); U q(n.cross(m)); if (g.chance(0.5)) m = -m; double h = g.real(0.1, 1.2);
        return mkPoly({step(m, q, h), step(m, -q, h), step(m, n, g.real(0.1, 1.5))});
    } catch (std::exception const &) {}
    if (g.chance(0.1)) try { // an edge that passes close to a pole (or the end of another axis), or through it
        U ax = g.chance(0.7) ? U::Z() : g.chance(0.5) ? U::X() : U::Y(); if (g.chance(0.5)) ax = -ax;
        U m = g.chance(0.15) ? ax : near(g, ax, std::pow(10, g.real(-16, -3))), q = tangent(g, m), s(m.cross(q)); double h = g.real(0.05, 1.4), k = g.chance(0.5) ? h : g.real(0.05, 1.4);
        std::vector<U> v = {step(m, -q, h), step(m, q, k)}; int n = g.range(1, 2); for (int i = 0; i < n; ++i) { double x = n == 1 ? g.real(-0.3, 0.3) : i == 0 ? 0.3 : -0.3; v.push_back(U(Vector3d(m) + Vector3d(s) * std::tan(g.real(0.05, 1.4)) + Vector3d(q) * x)); }
        return mkPoly(v);
    } catch (std::exception const &) {}
    for (int tries = 0;; ++tries) {
        if (tries > 10000) throw std::runtime_error("no convex polygon could be made");
        int n = g.range(3, 7); std::vector<U> v; double flat = g.chance(0.3) ? std::pow(10, -g.real(0, 3)) : 1;
        for (int i = 0; i < n; ++i) { double p = (i + g.real(0, 0.9)) * 6.283185307 / n; double rr = a * (g.chance(0.5) ? 1 : g.real(0.4, 1)); v.push_back(U(Vector3d(c) * std::cos(rr) + (Vector3d(t) * std::cos(p) + Vector3d(b) * (flat * std::sin(p))) * std::sin(rr))); }
        try { return mkPoly(v); } catch (std::exception const &) {}
    }
}
inline Shape genSimple(Rng & g, int type, U const & c, double a) {
    switch (type) {
        case 0: if (g.chance(0.04)) { Circle k = g.chance(0.5) ? Circle::empty() : Circle::full(); return {std::make_shared<Circle>(k), describe(k)}; }
                return mkCircle(c, g.chance(0.05) ? 0 : g.chance(0.12) ? M_PI - a : g.chance(0.05) ? M_PI / 2 : a);
        case 1: {
            if (g.chance(0.05)) { Box k = g.chance(0.5) ? Box::empty() : Box::full(); return {std::make_shared<Box>(k), describe(k)}; }
            LonLat p(c); double lon = p.getLon().asRadians(), lat = p.getLat().asRadians(), w = g.chance(0.5) ? a : g.chance(0.5) ? g.real(0, 3.1) : g.real(3.1, 6.2) / 2, h = g.chance(0.7) ? a : g.real(0, 1.5);
            if (g.chance(0.1)) w = 0; if (g.chance(0.05)) h = 0;
            double lo = std::max(-M_PI / 2, lat - h), hi = std::min(M_PI / 2, lat + h); if (g.chance(0.08)) hi = M_PI / 2; if (g.chance(0.08)) lo = -M_PI / 2;
            if (g.chance(0.1)) { auto b = std::make_shared<Box>(NormalizedAngleInterval::full(), AngleInterval(Angle(lo), Angle(hi))); return {b, describe(*b)}; }
            return mkBox(lon - w, lon + w, lo, hi);
        }
        case 2: {
            if (g.chance(0.04)) { Ellipse k = g.chance(0.5) ? Ellipse::empty() : Ellipse::full(); return {std::make_shared<Ellipse>(k), describe(k)}; }
            if (g.chance(0.06)) a = std::pow(10, -g.real(6, 8));
            double b = a * (g.chance(0.2) ? std::pow(10, -g.real(0, 2)) : g.real(0.1, 1)); bool large = g.chance(0.2); if (a > 1.5) a = 1.5; if (b > 1.5) b = 1.4;
            if (g.chance(0.15)) b = a;
            if (g.chance(0.06)) { // semi-axes of nothing, or of everything
                auto ext = [&] { switch (g.below(6)) { case 0: return 0.0; case 1: return std::pow(10, -g.real(14, 20)); case 2: return -g.uni() * (g.chance(0.5) ? 1 : 1e-12); default: return a; } };
                double x = ext(), y = g.chance(0.5) ? x : ext(); bool l = g.chance(0.5); return mkEll(c, l ? M_PI - x : x, l ? M_PI - y : y, g.real(-7, 7));
            }
            if (g.chance(0.35)) { double f = a * g.uni(); U t = tangent(g, c); return mkFoci(step(c, t, f), step(c, t, -f), large ? M_PI - a : a); }
            if (g.chance(0.5)) std::swap(a, b);
            return large ? mkEll(c, M_PI - a, M_PI - b, g.real(-7, 7)) : mkEll(c, a, b, g.chance(0.2) ? g.range(-4, 4) * M_PI / 2 : g.real(-7, 7));
        }
        default: return genPoly(g, c, a);
    }
}
inline Shape genShape(Rng & g, U const & c, double a, int depth = 0) {
    if (depth > 0 && g.chance(0.6)) {
        Shape x = genShape(g, near(g, c, a * g.uni() * 1.5), a * g.real(0.3, 1.5), depth - 1), y = genShape(g, near(g, c, a * g.uni() * 1.5), a * g.real(0.3, 1.5), depth - 1);
        bool u = g.chance(0.5); std::shared_ptr<Region> r; if (u) r = std::make_shared<UnionRegion>(*x.r, *y.r); else r = std::make_shared<IntersectionRegion>(*x.r, *y.r);
        return {r, J('{').skey("k", u ? "union" : "inter").key("r", "[" + x.d + "," + y.d + "]").done()};
    }
    return genSimple(g, g.below(4), c, a);
}
// points on (or very close to) the boundary, and the centre
inline void boundary(Rng & g, Region const & r, std::vector<U> & out, int n) {
    if (auto p = dynamic_cast<Circle const *>(&r)) {
        if (p->isEmpty() || p->isFull()) return; out.push_back(p->getCenter());
        for (int i = 0; i < n; ++i) out.push_back(near(g, p->getCenter(), 2 * std::asin(0.5 * std::sqrt(p->getSquaredChordLength()))));
        // the northernmost, southernmost, easternmost, westernmost points
        double a = 2 * std::asin(0.5 * std::sqrt(p->getSquaredChordLength())); U c = p->getCenter(); if (std::fabs(c.z()) < 0.999999) { U N = U::northFrom(c); out.push_back(step(c, N, a)); out.push_back(step(c, -N, a)); }
    } else if (auto p = dynamic_cast<Box const *>(&r)) {
        if (p->isEmpty()) return; double a = p->getLon().isFull() ? g.real(0, 6) : p->getLon().getA().asRadians(), w = p->getLon().isFull() ? 6.283 : p->getLon().getSize().asRadians(), lo = p->getLat().getA().asRadians(), hi = p->getLat().getB().asRadians();
        for (int i = 0; i < n; ++i) { double u = g.chance(0.3) ? g.below(2) : g.uni(), v = g.chance(0.3) ? g.below(2) : g.uni(); if (g.chance(0.7)) (g.chance(0.5) ? u : v) = g.below(2); out.push_back(U(Angle(a + u * w), Angle(lo + v * (hi - lo)))); }
    } else if (auto p = dynamic_cast<Ellipse const *>(&r)) {
        if (p->isEmpty() || p->isFull()) return; out.push_back(p->getCenter());
        double a = p->getAlpha().asRadians(), b = p->getBeta().asRadians(); Matrix3d const & S = p->getTransformMatrix(); double ta = std::fabs(std::tan(a)), tb = std::fabs(std::tan(b));
        for (int i = 0; i < n; ++i) { double t = g.chance(0.3) ? g.below(4) * M_PI / 2 : g.real(0, 6.2831853); double x = ta * std::cos(t), y = tb * std::sin(t), z = a > M_PI / 2 ? -1 : 1; if (ta > 1e15) { z = 0; }
            out.push_back(U(S(0, 0) * x + S(1, 0) * y + S(2, 0) * z, S(0, 1) * x + S(1, 1) * y + S(2, 1) * z, S(0, 2) * x + S(1, 2) * y + S(2, 2) * z)); }
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
        auto const & v = p->getVertices(); Vector3d c; for (auto const & u : v) c += Vector3d(u); out.push_back(U(c));
        for (int i = 0; i < n; ++i) { size_t k = g.below(v.size()), l = (k + 1) % v.size(); double t = g.chance(0.35) ? 0 : g.uni(); out.push_back(U(Vector3d(v[k]) * (1 - t) + Vector3d(v[l]) * t)); }
        // the highest and lowest points of edges
        for (size_t k = 0; k < v.size(); ++k) { size_t l = (k + 1) % v.size(); Vector3d m = v[k].cross(v[l]); Vector3d h(-m.x() * m.z(), -m.y() * m.z(), m.x() * m.x() + m.y() * m.y()); if (h.getSquaredNorm() == 0) continue; U q(h); if (m.cross(v[k]).dot(q) > 0 && m.cross(v[l]).dot(q) < 0) out.push_back(q); if (m.cross(v[k]).dot(-q) > 0 && m.cross(v[l]).dot(-q) < 0) out.push_back(-q); }
    } else {
        auto c = dynamic_cast<CompoundRegion const *>(&r); boundary(g, c->getOperand(0), out, n / 2 + 1); boundary(g, c->getOperand(1), out, n / 2 + 1);
    }
}
// boundary points nudged to either side, their antipodes, special and random points
inline std::vector<U> witnesses(Rng & g, std::vector<Region const *> const & rs, int n, double scale) {
    std::vector<U> b, w; for (auto r : rs) boundary(g, *r, b, n / (int)rs.size() + 1);
    for (auto const & u : b) {
        double e; switch (g.below(5)) { case 0: e = 0; break; case 1: e = std::pow(10, -g.real(6, 13)); break; case 2: e = scale * std::pow(10, -g.real(0, 6)); break; default: e = scale * g.uni() * 0.3; break; }
        w.push_back(near(g, u, std::min(e, 3.0)));
    }
    for (size_t i = 0; i + 1 < b.size() && i < (size_t)n / 2; ++i) { size_t j = g.below(b.size()), k = g.below(b.size()); double s = g.uni(), t = g.uni(); Vector3d v = Vector3d(b[i]) + Vector3d(b[j]) * s + Vector3d(b[k]) * t; if (v.getSquaredNorm() > 1e-4) w.push_back(U(v)); }
    for (int i = 0; i < 2; ++i) { w.push_back(special(g)); w.push_back(U(randVec(g))); if (!b.empty()) w.push_back(-b[g.below(b.size())]); }
    for (auto & u : w) if (u.z() == 0 && g.chance(0.5)) {}
    return w;
}
