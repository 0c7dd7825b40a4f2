// Records answers of the region classes (spec/TraceRegion.tla).
#include "sphere.h"
#include <typeinfo>
static std::ofstream os;
static std::string ptsJ(std::vector<U> const & w) { J l('['); for (auto const & u : w) l.raw(ptJ(u)); return l.done(); }
static std::string relJ(Relationship r) { return J('{').key("d", (r & DISJOINT) != 0).key("c", (r & CONTAINS) != 0).key("w", (r & WITHIN) != 0).key("x", (int)(r.to_ulong() & ~7ul)).done(); }

static void contain(Rng & g) {
    double a = size(g); Shape s = genShape(g, place(g), a, g.chance(0.15) ? 2 : 0);
    std::vector<U> w = witnesses(g, {s.r.get()}, 14, a); J an('['); bool forms = true;
    for (auto & u : w) {
        bool b = s.r->contains(u); an.raw(boolj(b)); LonLat p(u); double lon = p.getLon().asRadians(), lat = p.getLat().asRadians(); U q(p);
        // the same question in other words
        if (s.r->contains(lon, lat) != s.r->contains(q)) forms = false;
        U n(Vector3d(u.x(), u.y(), u.z())); if (s.r->contains(u.x(), u.y(), u.z()) != s.r->contains(n)) forms = false;
        if (auto x = dynamic_cast<Box const *>(s.r.get())) if (x->contains(p) != b) forms = false;
        if (auto x = dynamic_cast<Circle const *>(s.r.get())) if (x->isDisjointFrom(u) == b || x->intersects(u) != b) forms = false;
    }
    if (auto x = dynamic_cast<Ellipse const *>(s.r.get())) if (x->isEmpty() == x->contains(x->getCenter())) forms = false;
    if (auto x = dynamic_cast<Circle const *>(s.r.get())) if (x->isEmpty() == x->contains(x->getCenter())) forms = false;
    os << J('{').skey("op", "contain").key("r", s.d).key("p", ptsJ(w)).key("in", an.done()).key("forms", forms).done() << "\n";
    // the description of what the object itself says it is
    if (!dynamic_cast<CompoundRegion const *>(s.r.get()))
        os << J('{').skey("op", "contain").key("r", describe(*s.r)).key("p", ptsJ(w)).key("in", an.done()).key("forms", true).done() << "\n";
    if (auto e = dynamic_cast<Ellipse const *>(s.r.get())) if (!e->isEmpty() && !e->isFull()) {
        J an2('['); Ellipse k = e->complemented(); for (auto & u : w) an2.raw(boolj(!k.contains(u)));
        os << J('{').skey("op", "contain").key("r", s.d).key("p", ptsJ(w)).key("in", an2.done()).key("forms", k.getCenter() == -e->getCenter() && k.complemented() == *e).done() << "\n";
        // the focus form of the same ellipse
        os << J('{').skey("op", "contain").key("r", ellJ(lv(e->getF1()), lv(e->getF2()), (LD)e->getAlpha().asRadians())).key("p", ptsJ(w)).key("in", an.done()).key("forms", true).done() << "\n";
    }
}
// ---- relationships
template <class R> static bool derivedC(R const & a, R const & b, Relationship ab) {
    return a.contains(b) == ((ab & CONTAINS) != 0) && a.isDisjointFrom(b) == ((ab & DISJOINT) != 0) && a.intersects(b) == ((ab & DISJOINT) == 0) && a.isWithin(b) == ((ab & WITHIN) != 0);
}
static void relEvent(Rng & g, Shape const & a, Shape const & b, double scale, int n) {
    Relationship ab = a.r->relate(*b.r), ba = b.r->relate(*a.r), typed = ab; bool derived = true;
    if (auto p = dynamic_cast<Box const *>(b.r.get())) typed = a.r->relate(*p);
    if (auto p = dynamic_cast<Circle const *>(b.r.get())) typed = a.r->relate(*p);
    if (auto p = dynamic_cast<Ellipse const *>(b.r.get())) typed = a.r->relate(*p);
    if (auto p = dynamic_cast<ConvexPolygon const *>(b.r.get())) typed = a.r->relate(*p);
    if (typed != ab) derived = false;
    if (auto p = dynamic_cast<ConvexPolygon const *>(a.r.get())) derived = derived && p->contains(*b.r) == ((ab & CONTAINS) != 0) && p->isDisjointFrom(*b.r) == ((ab & DISJOINT) != 0) && p->intersects(*b.r) == ((ab & DISJOINT) == 0) && p->isWithin(*b.r) == ((ab & WITHIN) != 0);
    if (auto p = dynamic_cast<Box const *>(a.r.get())) if (auto q = dynamic_cast<Box const *>(b.r.get())) derived = derived && derivedC(*p, *q, ab);
    if (auto p = dynamic_cast<Circle const *>(a.r.get())) if (auto q = dynamic_cast<Circle const *>(b.r.get())) derived = derived && derivedC(*p, *q, ab);
    // operands are unharmed, and copies behave alike
    auto ca = a.r->clone(), cb = b.r->clone(); if (ca->relate(*cb) != ab) derived = false;
    std::vector<U> w = witnesses(g, {a.r.get(), b.r.get()}, n, scale);
    // the claims must also agree with membership as the code decides it, in every representable direction
    std::vector<U> all = w; for (auto r : {a.r.get(), b.r.get()}) { boundary(g, *r, all, n); if (auto p = dynamic_cast<ConvexPolygon const *>(r)) all.insert(all.end(), p->getVertices().begin(), p->getVertices().end()); }
    J own('['); int i = 0;
    for (auto & u : all) { ++i; bool p = a.r->contains(u), q = b.r->contains(u); if ((p && q && (ab & DISJOINT) != 0) || (!p && q && (ab & CONTAINS) != 0) || (p && !q && (ab & WITHIN) != 0)) own.num(i); }
    J parts('['); if (auto p = dynamic_cast<CompoundRegion const *>(a.r.get())) for (int k = 0; k < 2; ++k) parts.raw(relJ(p->getOperand(k).relate(*b.r)));
    os << J('{').skey("op", "relate").key("parts", parts.done()).key("a", a.d).key("b", b.d).key("ab", relJ(ab)).key("ba", relJ(ba)).key("derived", derived).key("own", own.done()).key("p", ptsJ(w)).done() << "\n";
}
static void relate(Rng & g, int depth) {
    U c = place(g); double a = size(g, 1e-5), f = g.chance(0.4) ? std::pow(10, g.real(-1, 1)) : g.real(0.3, 2), b = std::min(a * f, 3.0);
    U d; switch (g.below(6)) { case 0: d = c; break; case 1: d = near(g, c, g.uni() * std::fabs(a - b)); break; case 2: d = near(g, c, std::min(3.1, a + b) * g.real(0.5, 1.5)); break; case 3: d = near(g, c, g.chance(0.5) ? std::fabs(a - b) : std::min(a + b, 3.1)); break; case 4: d = near(g, -c, g.uni() * a); break; default: d = near(g, c, g.uni() * std::min(3.1, a + b)); }
    int s = g.below(12);
    if (s == 0) { // a nearly full circle whose complement lies inside or outside the other region
        Shape x = mkCircle(-d, M_PI - a * g.real(0.01, 1.2)), y = depth ? genShape(g, c, a, depth) : genSimple(g, g.below(4), c, a); relEvent(g, x, y, a, 16); return;
    }
    Shape x = depth ? genShape(g, c, a, depth) : genSimple(g, g.below(4), c, a), y = depth ? genShape(g, d, b, g.below(depth + 1)) : genSimple(g, g.below(4), d, b);
    if (s == 1) y = x;
    if (s == 2) if (auto p = dynamic_cast<ConvexPolygon const *>(x.r.get())) { // share vertices or edges
        auto v = p->getVertices(); std::vector<U> u; Vector3d m; for (auto & q : v) m += q; size_t k = g.below(v.size()); u.push_back(v[k]); u.push_back(v[(k + 1) % v.size()]); u.push_back(g.chance(0.5) ? U(m) : U(Vector3d(v[k]) + Vector3d(v[(k + 1) % v.size()]) - m * (g.uni() * 0.5 / v.size()))); if (g.chance(0.4)) u[1] = U(Vector3d(u[0]) + Vector3d(u[1]));
        try { y = mkPoly(u); } catch (std::exception const &) {}
    }
    relEvent(g, x, y, std::min(a, b), 16);
}
// ---- bounding shapes
static LV along(LV c, int axis, double sg, LD a) { // the point of the circle (c, a) farthest along an axis
    LD e[3] = {0, 0, 0}; e[axis] = sg; LD d = axis == 0 ? c.x : axis == 1 ? c.y : c.z; LV t = {e[0] - d * c.x * 1, e[1] - d * c.y, e[2] - d * c.z};
    d *= sg; t = {e[0] - d * c.x, e[1] - d * c.y, e[2] - d * c.z}; LD n = sqrtl(t.x * t.x + t.y * t.y + t.z * t.z);
    if (n < 1e-9L || acosl(std::min<LD>(1, d)) <= a) return {e[0], e[1], e[2]};
    return {c.x * cosl(a) + t.x / n * sinl(a), c.y * cosl(a) + t.y / n * sinl(a), c.z * cosl(a) + t.z / n * sinl(a)};
}
// points of a simple region at which its bounds should touch it
static std::vector<U> extremes(Rng & g, Region const & r) {
    std::vector<U> o; auto put = [&](LV v) { v = norm(v); o.push_back(U(Vector3d(v.x, v.y, v.z))); };
    if (auto p = dynamic_cast<Circle const *>(&r)) {
        if (p->isEmpty()) return o; LD a = p->isFull() ? PIL : 2 * asinl(sqrtl((LD)p->getSquaredChordLength()) / 2); LV c = norm(lv(p->getCenter())); for (int k = 0; k < 2; ++k) o.push_back(near(g, p->getCenter(), a));
        for (int k = 0; k < 3; ++k) { put(along(c, k, 1, a)); put(along(c, k, -1, a)); }
        LD lat = atan2l(c.z, hypotl(c.x, c.y)), lon = atan2l(c.y, c.x); // where the boundary touches meridians
        if (fabsl(lat) + a < PIL / 2) { LD w = asinl(sinl(a) / cosl(lat)), h = asinl(sinl(lat) / cosl(a)); for (int s = -1; s <= 1; s += 2) put({cosl(h) * cosl(lon + s * w), cosl(h) * sinl(lon + s * w), sinl(h)}); }
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
        auto const & v = p->getVertices(); for (auto & u : v) o.push_back(u);
        for (size_t k = 0; k < v.size(); ++k) { LV a = lv(v[k]), b = lv(v[(k + 1) % v.size()]), n = norm({a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x});
            for (int i = 0; i < 3; ++i) { LD ni = i == 0 ? n.x : i == 1 ? n.y : n.z; LV e = {(i == 0) - ni * n.x, (i == 1) - ni * n.y, (i == 2) - ni * n.z}; put(e); put({-e.x, -e.y, -e.z}); } }
    } else if (auto p = dynamic_cast<Box const *>(&r)) {
        if (p->isEmpty()) return o; LD A = p->getLon().getA().asRadians(), B = p->getLon().getB().asRadians(), L = p->getLat().getA().asRadians(), H = p->getLat().getB().asRadians();
        LD lons[] = {A, B, 0, PIL / 2, PIL, 3 * PIL / 2, (A <= B ? (A + B) / 2 : (A + B) / 2 + PIL), (A <= B ? (A + B) / 2 : (A + B) / 2 + PIL) + PIL}, lats[] = {L, H, 0};
        for (LD x : lons) for (LD y : lats) put({cosl(x) * cosl(y), sinl(x) * cosl(y), sinl(y)});
    }
    for (int k = 0; k < 3; ++k) for (int s = -1; s <= 1; s += 2) put({(LD)(k == 0) * s, (LD)(k == 1) * s, (LD)(k == 2) * s});
    return o;
}
static std::string box3J(Box3d const & b) {
    auto iv = [](Interval1d const & x) { return "[" + bigL(x.isEmpty() ? 1 : x.getA(), 75) + "," + bigL(x.isEmpty() ? -1 : x.getB(), 75) + "]"; };
    return "[" + iv(b.x()) + "," + iv(b.y()) + "," + iv(b.z()) + "]";
}
static void boundEvent(Rng & g, Shape const & s, double scale, int n) {
    Region const & r = *s.r; Box bb = r.getBoundingBox(); Circle bc = r.getBoundingCircle(); Box3d b3 = r.getBoundingBox3d();
    std::vector<U> w = witnesses(g, {&r}, n, scale), x; if (!dynamic_cast<CompoundRegion const *>(&r)) x = extremes(g, r);
    // membership as the code itself decides it
    J own('['); std::vector<U> all = w; boundary(g, r, all, n); int i = 0;
    for (auto & u : all) { ++i; if (r.contains(u)) { if (!bb.contains(u)) own.num(i); if (!bc.contains(u)) own.num(i); if (!b3.contains(u)) own.num(i); } }
    bool e = false, f = false, be = bb.isEmpty() && bc.isEmpty() && b3.isEmpty(), bf = bb.isFull() && bc.isFull();
    if (auto p = dynamic_cast<Circle const *>(&r)) { e = p->isEmpty(); f = p->isFull(); } if (auto p = dynamic_cast<Box const *>(&r)) { e = p->isEmpty(); f = p->isFull(); } if (auto p = dynamic_cast<Ellipse const *>(&r)) { e = p->isEmpty(); f = p->isFull(); }
    os << J('{').skey("op", "bound").key("r", s.d).key("bb", describe(bb)).key("bc", describe(bc)).key("b3", box3J(b3)).key("p", ptsJ(w)).key("x", ptsJ(x)).key("own", own.done())
        .key("e", e).key("f", f).key("be", be).key("bf", bf).done() << "\n";
}
static void bound(Rng & g) { double a = size(g); if (g.chance(0.1)) a = g.real(1.5, 3.1); boundEvent(g, genShape(g, place(g), a, g.chance(0.2) ? 2 : 0), a, 14); }
// ---- compound regions
static bool sameBytes(Region const & a, Region const & b) { return a.encode() == b.encode() && typeid(a) == typeid(b); }
static void compound(Rng & g) {
    U c = place(g); double a = size(g, 1e-4); int depth = g.range(1, 3);
    Shape s; do s = genShape(g, c, a, depth); while (!dynamic_cast<CompoundRegion const *>(s.r.get()));
    auto const & k = dynamic_cast<CompoundRegion const &>(*s.r); bool parts = true, copy = true;
    std::vector<U> w = witnesses(g, {s.r.get()}, 16, a); J an('['), a0('['), a1('[');
    for (auto & u : w) { an.raw(boolj(k.contains(u))); a0.raw(boolj(k.getOperand(0).contains(u))); a1.raw(boolj(k.getOperand(1).contains(u))); }
    auto rs = Region::getRegions(k); parts = rs.size() == 2 && sameBytes(*rs[0], k.getOperand(0)) && sameBytes(*rs[1], k.getOperand(1));
    auto one = Region::getRegions(k.getOperand(0)); if (!dynamic_cast<CompoundRegion const *>(&k.getOperand(0))) parts = parts && one.size() == 1 && sameBytes(*one[0], k.getOperand(0));
    { // copies and originals do not share anything
        auto copy1 = s.r->clone(); auto e0 = k.encode(); copy = sameBytes(*copy1, k) && &dynamic_cast<CompoundRegion &>(*copy1).getOperand(0) != &k.getOperand(0);
        std::unique_ptr<Region> r0 = k.getOperand(0).clone(), r1 = k.getOperand(1).clone(), again;
        if (dynamic_cast<UnionRegion const *>(&k)) again = std::make_unique<UnionRegion>(*r0, *r1); else again = std::make_unique<IntersectionRegion>(*r0, *r1);
        r0.reset(); r1.reset(); copy = copy && sameBytes(*again, k); again.reset(); copy = copy && k.encode() == e0;
        if (auto u = dynamic_cast<UnionRegion const *>(&k)) { UnionRegion v(*u); copy = copy && sameBytes(v, k) && &v.getOperand(1) != &k.getOperand(1); }
        if (auto u = dynamic_cast<IntersectionRegion const *>(&k)) { IntersectionRegion v(*u); copy = copy && sameBytes(v, k) && &v.getOperand(1) != &k.getOperand(1); }
        J an2('['); for (auto & u : w) an2.raw(boolj(copy1->contains(u))); copy = copy && an.done() == an2.done();
    }
    os << J('{').skey("op", "compound").key("u", dynamic_cast<UnionRegion const *>(&k) != nullptr).key("r", s.d).key("self", describe(k)).key("p", ptsJ(w)).key("in", an.done()).key("in0", a0.done()).key("in1", a1.done())
        .key("parts", parts).key("copy", copy).done() << "\n";
    U d = near(g, c, g.uni() * std::min(3.0, 2 * a)); double b = std::min(2.5, a * (g.chance(0.5) ? std::pow(10, g.real(-1, 1)) : 1));
    Shape o = genShape(g, d, b, g.below(3)); relEvent(g, s, o, std::min(a, b), 14); boundEvent(g, s, a, 10);
}
// ---- dilating a box by a radius
static void grow(Rng & g) {
    U c = place(g); double a = size(g, 1e-5); Shape s = genSimple(g, 1, c, a); auto const & x = dynamic_cast<Box const &>(*s.r);
    double lat = x.isEmpty() ? 0 : std::max(std::fabs(x.getLat().getA().asRadians()), std::fabs(x.getLat().getB().asRadians())), r = size(g, 1e-6);
    switch (g.below(12)) { case 0: r = 0; break; case 1: r = -r; break; case 2: r = M_PI / 2 - lat; break; case 3: r = (M_PI / 2 - lat) * (1 - std::pow(10, -g.real(0, 9))); break; case 4: r = (M_PI / 2 - lat) * (1 + std::pow(10, -g.real(0, 9))); break; case 5: r = g.real(1.5, 4); break; default: break; }
    Box z = x.dilatedBy(Angle(r)), y = x; y.dilateBy(Angle(r)); Box k = x; k.erodeBy(Angle(-r)); Box m = x.erodedBy(Angle(-r)); bool ok = y == z && k == z && m == z;
    std::vector<U> q = witnesses(g, {&x}, 16, a), p; J own('[');
    for (auto & u : q) { U t = tangent(g, u); if (g.chance(0.4) && std::fabs(u.z()) < 1 - 1e-9) { t = U(u.cross(U::Z())); if (g.chance(0.5)) t = -t; if (g.chance(0.5)) { U n = U::northFrom(u); double th = g.real(0, 1.57); t = U(Vector3d(t) * std::cos(th) + Vector3d(u.z() >= 0 ? n : -n) * std::sin(th)); } }
        p.push_back(step(u, t, std::max(0.0, std::min(M_PI, r)) * (g.chance(0.6) ? 1 : g.uni()))); }
    for (size_t i = 0; i < q.size(); ++i) own.raw(boolj(x.contains(q[i]) && !z.contains(q[i])));
    LD h = sinl(std::min<LD>(PIL, std::max(0.0, r)) / 2);
    os << J('{').skey("op", "grow").key("x", s.d).key("z", describe(z)).key("same", z == x).key("zfull", z.isFull()).key("ze", z.isEmpty()).key("xe", x.isEmpty()).key("pos", r > 0).key("xfull", x.isFull()).key("s", bigL(4 * h * h, 150)).key("q", ptsJ(q)).key("p", ptsJ(p)).key("own", own.done()).key("ok", ok).done() << "\n";
}
int main(int, char ** v) {
    std::string mode = v[1]; os.open(v[2]); Rng g(atoll(v[3])); int n = atoi(v[4]);
    for (int i = 0; i < n; ++i) {
        if (mode == "contain") contain(g);
        if (mode == "relate") relate(g, i % 12 == 0 ? 1 : 0);
        if (mode == "bound") bound(g);
        if (mode == "grow") grow(g);
        if (mode == "compound") compound(g);
    }
    return 0;
}
