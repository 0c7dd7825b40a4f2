// Angles, coordinates, derived vectors and linear algebra (spec/TraceAngle.tla).
#include "sphere.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/NormalizedAngle.h"
static std::ofstream os;
typedef NormalizedAngle NA;
static void die(char const * m) { std::cerr << m << "\n"; exit(3); }
// a common unit for some numbers
struct Com { int m = 100000; Com & add(double d) { m = std::min(m, lowExp(d)); return *this; } Com & add(Vector3d const & v) { return add(v.x()).add(v.y()).add(v.z()); }
    std::string operator()(double d) const { return bigShift(d, m); } std::string operator()(Vector3d const & v) const { return "[" + (*this)(v.x()) + "," + (*this)(v.y()) + "," + (*this)(v.z()) + "]"; } };
static std::string big75(Vector3d const & v) { return "[" + bigL(v.x(), 75) + "," + bigL(v.y(), 75) + "," + bigL(v.z(), 75) + "]"; }
static double sgn(Rng & g) { return g.chance(0.5) ? 1 : -1; }
static double angle(Rng & g) {
    double a;
    switch (g.below(9)) {
        case 0: a = g.range(-9, 9) * M_PI / 2; break;
        case 1: a = g.range(-9, 9) * M_PI; for (int k = g.range(0, 2); k > 0; --k) a = std::nextafter(a, sgn(g) * 1e9); break;
        case 2: a = sgn(g) * std::pow(10, g.real(-320, 0)); break;
        case 3: a = sgn(g) * std::pow(10, g.real(0, 18)); break;
        case 4: a = sgn(g) * std::pow(10, g.real(0, 308)); break;
        case 5: a = g.real(-1, 1) * 2 * M_PI; break;
        case 6: a = g.range(-5, 5) * 2 * M_PI; for (int k = g.range(0, 3); k > 0; --k) a = std::nextafter(a, sgn(g) * 1e9); break;
        case 7: a = std::ldexp((double)g.below(1ULL << 53), g.range(-53, 20)) * sgn(g); break;
        default: a = g.real(0, 2 * M_PI);
    }
    return a;
}
static double nangle(Rng & g) { switch (g.below(5)) { case 0: return NA(angle(g)).asRadians(); case 1: { double x[] = {0, M_PI, 2 * M_PI, M_PI / 2, 1.5 * M_PI, 5e-324, std::nextafter(2 * M_PI, 0), std::nextafter(M_PI, 0), std::nextafter(M_PI, 4)}; return x[g.below(9)]; } default: return g.real(0, 2 * M_PI); } }
static void norm1(Rng & g) {
    double a = angle(g); NA n = g.chance(0.5) ? NA(a) : g.chance(0.5) ? NA(Angle(a)) : NA::fromRadians(a); double r = n.asRadians();
    Com c; c.add(a).add(r); c.m = std::min(c.m, -50);
    os << J('{').skey("op", "norm").key("k", -c.m).key("a", c(a)).key("r", c(r)).key("wasNormalized", Angle(a).isNormalized()).done() << "\n";
    if (!Angle(r).isNormalized() || n.isNan()) die("isNormalized");
    if (NA(n.asRadians()) != n) die("normalizing twice");
    double d = g.chance(0.5) ? angle(g) : g.range(-720, 720); if (std::fabs(d) > 1e300 || std::fabs(d) < 1e-300) d = 90;
    Angle x = Angle::fromDegrees(d); if (NA::fromDegrees(d) != NA(x.asRadians())) die("NormalizedAngle::fromDegrees");
    double b = x.asDegrees(); if (NA(x).asDegrees() != Angle(NA(x)).asDegrees()) die("NormalizedAngle::asDegrees");
    Com e; e.add(d).add(x.asRadians()).add(b);
    os << J('{').skey("op", "deg").key("d", e(d)).key("r", e(x.asRadians())).key("back", e(b)).done() << "\n";
}
static void pair(Rng & g) {
    double a = nangle(g), b = g.chance(0.2) ? a : nangle(g); if (g.chance(0.15)) { b = a + sgn(g) * M_PI; if (b < 0) b += 2 * M_PI; if (b > 2 * M_PI) b = 2 * M_PI; } if (g.chance(0.1)) { double h = std::ldexp((double)g.range(0, 1 << 20), -g.range(19, 51)); if (h <= M_PI) { a = M_PI + h; b = M_PI - h; if (a > 2 * M_PI) a = 2 * M_PI; } } NA x(a), y(b);
    if (x.asRadians() != a || y.asRadians() != b) die("a normalized angle changes");
    Com e; e.m = -50; e.add(a).add(b); for (Angle z : {(Angle)x.getAngleTo(y), (Angle)NA::between(x, y), (Angle)NA::center(x, y)}) e.add(z.asRadians());
    auto q = [&](Angle z) { return e(z.asRadians()); };
    os << J('{').skey("op", "pair").key("k", -e.m).key("a", e(a)).key("b", e(b)).key("to", q(x.getAngleTo(y))).key("between", q(NA::between(x, y))).key("center", q(NA::center(x, y))).done() << "\n";
    double c = g.chance(0.5) ? a : angle(g), d = g.chance(0.2) ? c : g.chance(0.3) ? std::nextafter(c, 9) : angle(g); Angle p(c), r(d); Com u; u.add(c).add(d);
    std::vector<bool> v1 = {p < r, p <= r, p == r, p != r, p >= r, p > r}; NA n; if (c >= 0 && c <= 2 * M_PI) { n = NA(c); std::vector<bool> v2 = {n < r, n <= r, n == r, n != r, n >= r, n > r}; if (v1 != v2) die("comparisons of normalized angles"); }
    J l('['); for (bool z : v1) l.raw(boolj(z)); os << J('{').skey("op", "cmp").key("a", u(c)).key("b", u(d)).key("r", l.done()).done() << "\n";
}
static void arith(Rng & g) {
    auto num = [&] { return g.chance(0.3) ? (double)g.range(-20, 20) : g.real(-1, 1) * std::pow(10, g.real(-20, 20)); };
    double a = num(), b = num(), f = num(); if (f == 0) f = 3; 
    Angle x(a), y(b), s = x + y, d = x - y, p = x * f, q = x / f;
    { Angle t = x; t += y; if (t != s) die("+="); t = x; t -= y; if (t != d) die("-="); t = x; t *= f; if (t != p || f * x != p) die("*="); t = x; t /= f; if (t != q) die("/="); if (b != 0 && x / y != a / b) die("ratio"); }
    double n = NA(std::fabs(a)).asRadians(); NA m(n); if (m + y != Angle(n) + y || m - y != Angle(n) - y || m * f != Angle(n) * f || m / f != Angle(n) / f || -m != -Angle(n) || (b != 0 && m / y != Angle(n) / y)) die("arithmetic of normalized angles");
    Com c; c.add(a).add(b).add(s.asRadians()).add(d.asRadians()); Com cf; cf.add(f); int fe = cf.m;
    // products: in units of c.m + fe; quotients: q * f = a
    Com cp; cp.m = c.m + fe; cp.add(p.asRadians()); int up = c.m + fe - cp.m; // cp.m <= c.m + fe
    if (up) return; // the product is not a multiple of the product of the units: impossible unless it is rounded to more digits
    Com cq; cq.add(q.asRadians()); int sh = c.m - (cq.m + fe), qs = sh, qm = cq.m; if (qs < 0) { qm += qs; qs = 0; } cq.m = qm;
    if (q.asRadians() == 0) { qs = 0; }
    os << J('{').skey("op", "arith").key("a", c(a)).key("b", c(b)).key("f", cf(f)).key("sum", c(s.asRadians())).key("dif", c(d.asRadians())).key("neg", c((-x).asRadians())).key("abs", c(abs(x).asRadians()))
        .key("prod", cp(p.asRadians())).key("quot", cq(q.asRadians())).key("qs", qs).done() << "\n";
}
// a direction of any moderate length; components are 0 or not minute
static Vector3d vec(Rng & g) {
    Vector3d v(place(g)); double c[3] = {v.x(), v.y(), v.z()};
    if (g.chance(0.15)) c[g.below(3)] = 0; if (g.chance(0.15)) c[g.below(3)] *= std::pow(10, g.real(-30, 0)); if (g.chance(0.1)) c[g.below(3)] *= std::pow(10, g.real(-120, 0)); if (g.chance(0.1)) { c[0] = c[1] = c[2]; if (g.chance(0.5)) c[1] = -c[1]; }
    if (g.chance(0.05)) c[g.below(3)] = -0.0;
    v = Vector3d(c[0], c[1], c[2]); if (v.isZero()) return vec(g);
    double s = g.chance(0.6) ? 1 : g.chance(0.5) ? g.range(1, 9) : std::pow(10, g.real(-20, 20)); return v * s;
}
static bool minute(Vector3d const & v) { for (int k = 0; k < 3; ++k) if (v(k) != 0 && std::fabs(v(k)) < 1e-100) return true; return false; }
static void coords(Rng & g) {
    Vector3d v = vec(g); LonLat p(v); double lon = p.getLon().asRadians(), lat = p.getLat().asRadians(); U u(p), u2(p.getLon(), p.getLat());
    bool parts = LonLat::latitudeOf(v) == p.getLat() && LonLat::longitudeOf(v) == p.getLon() && u == u2 && LonLat(p.getLon(), p.getLat()) == p && !(LonLat(p.getLon(), p.getLat()) != p) && LonLat(U(v)) == LonLat(Vector3d(U(v)));
    os << J('{').skey("op", "fromv").key("v", bigVec(v)).key("lon", dirJ(lon)).key("lat", dirJ(lat)).key("rlon", bigL(lon, 60)).key("rlat", lat == 0 || std::fabs(lat) > 1e-15 ? bigL(lat, 60) : std::string(lat < 0 ? "[-1,1]" : "[1,1]")).key("u", big75(u)).key("parts", parts).done() << "\n";
    double a = angle(g), b = g.chance(0.5) ? g.real(-1.6, 1.6) : g.chance(0.4) ? M_PI / 2 * g.range(-1, 1) : angle(g); if (std::fabs(a) > 1e15) a = 1; if (std::fabs(b) > 1e15) b = 1;
    U w{Angle(a), Angle(b)}; os << J('{').skey("op", "froma").key("lon", dirJ(a)).key("lat", dirJ(b)).key("u", big75(w)).done() << "\n";
    NA n(a); os << J('{').skey("op", "meridian").key("lon", dirJ(n.asRadians())).key("o", big75(U::orthogonalTo(n))).done() << "\n";
    double l = g.chance(0.5) ? b : sgn(g) * M_PI / 2; for (int k = g.range(0, 3); k > 0; --k) l = std::nextafter(l, sgn(g) * 9); bool ok = true;
    try { LonLat x(n, Angle(l)); if (x.getLon() != n || x.getLat() != Angle(l)) die("coordinates change"); } catch (std::invalid_argument const &) { ok = false; }
    os << J('{').skey("op", "accepts").key("rlat", bigL(l, 60)).key("ok", ok).done() << "\n";
    try { LonLat x = LonLat::fromRadians(a, l); if (!ok || x != LonLat(NA(a), Angle(l))) die("fromRadians"); } catch (std::invalid_argument const &) { if (ok) die("fromRadians refuses"); }
    double dl = g.chance(0.5) ? 90 * sgn(g) : g.real(-95, 95), da = g.range(-720, 720); Angle q = Angle::fromDegrees(dl); bool ok2 = std::fabs(q.asRadians()) <= M_PI / 2;
    try { LonLat x = LonLat::fromDegrees(da, dl); if (!ok2 || x.getLon() != NA::fromDegrees(da) || x.getLat() != q) die("fromDegrees"); } catch (std::invalid_argument const &) { if (ok2) die("fromDegrees refuses"); }
}
static void sep(Rng & g) {
    Vector3d v = vec(g), w = vec(g); if (minute(v) || minute(w)) return; U uv(v);
    switch (g.below(5)) { case 0: w = near(g, uv, std::pow(10, g.real(-17, 0))); break; case 1: w = -near(g, uv, std::pow(10, g.real(-17, 0))); break; case 2: w = v; break; case 3: w = -v; break; }
    if (g.chance(0.5)) w = w * std::pow(10, g.real(-20, 20));
    double r = NA(v, w).asRadians(); LonLat p{v}, q{w}; double s = NA(p, q).asRadians(); U a(p), b(q);
    if (!(r >= 0 && r <= M_PI && s >= 0 && s <= M_PI)) die("separation out of range");
    os << J('{').skey("op", "sep").key("v", bigVec(v)).key("w", bigVec(w)).key("h", dirJ((LD)r / 2)).key("g", dirJ((LD)s / 2)).key("sym", NA(w, v).asRadians() == r && NA(q, p).asRadians() == s).done() << "\n";
}
static void derived(Rng & g) {
    Vector3d v = vec(g); if (!minute(v))
    os << J('{').skey("op", "derived").key("v", bigVec(v)).key("o", big75(U::orthogonalTo(v))).key("n", bigVec(U::northFrom(v))).key("nu", big75(U::northFrom(v))).key("u", big75(U(v))).done() << "\n";
    { Vector3d x = vec(g), y; double s = g.chance(0.5) ? 1 : std::pow(10, g.real(-250, 250)); x = x * s; if (!x.isZero() && std::fabs(x.x()) + std::fabs(x.y()) + std::fabs(x.z()) > 1e-280) { y = x; double n = y.normalize(), m = x.getNorm(); U z(x), z2(x.x(), x.y(), x.z()); bool mid = n > 1e-140 && n < 1e140; bool tiny = false; for (int k = 0; k < 3; ++k) if (x(k) != 0 && std::fabs(x(k)) < 1e-290) tiny = true;
        if (!(z == y) || !(z2 == z) || z != y) die("unit vectors differ"); if (!y.isNormalized()) die("isNormalized");
        if (!tiny) { Com c; c.add(x).add(n); if (mid) c.add(m); os << J('{').skey("op", "norms").key("v", c(x)).key("n", c(n)).key("g", mid ? c(m) : std::string("[0]")).done() << "\n"; } } }
    // two vectors
    U a(v), b; double q; switch (g.below(5)) { case 0: b = near(g, a, std::pow(10, g.real(-16, 0))); break; case 1: b = -near(g, a, std::pow(10, g.real(-16, 0))); break; case 2: b = a; break; case 3: b = -a; break; default: b = place(g); }
    Vector3d x(a), y(b); bool eq = true; q = std::pow(10, g.real(-8, 8)); if (g.chance(0.3)) { eq = false; y = y * q; if (g.chance(0.3)) y = Vector3d(b) * g.range(1, 9); } else if (g.chance(0.3)) { double t = std::ldexp(1.0, g.range(-20, 20)); x = x * t; y = y * t; }
    if (!minute(x) && !minute(y)) { U o = U::orthogonalTo(x, y); os << J('{').skey("op", "normal").key("v", bigVec(x)).key("w", bigVec(y)).key("equal", eq).key("o", big75(o)).done() << "\n"; }
    // rotations
    U k = place(g); double t = angle(g); if (std::fabs(t) > 1e15) t = 1; Vector3d r = v.rotatedAround(k, Angle(t)); U u(v), ur = u.rotatedAround(k, Angle(t)); if (minute(v)) return;
    Com c; c.add(v).add(r); if (c.m < -400) return;
    os << J('{').skey("op", "rot").key("v", c(v)).key("r", c(r)).key("k", big75(k)).key("a", dirJ((LD)t)).key("u", big75(ur)).done() << "\n";
}
static void vectors(Rng & g) {
    auto num = [&](int e) { switch (g.below(5)) { case 0: return (double)g.range(-9, 9); case 1: return g.real(-1, 1); case 2: return 1 + g.range(-3, 3) * std::ldexp(1.0, -52); default: return g.real(-1, 1) * std::pow(2, g.range(-e, e)); } };
    Vector3d v(num(20), num(20), num(20)), w(num(20), num(20), num(20)); if (g.chance(0.2)) w = v; if (g.chance(0.1)) w = -v; if (g.chance(0.05)) v = Vector3d(); double f = std::ldexp((double)g.below(1 << 20), g.range(-30, 5)) * sgn(g); if (f == 0) f = 3;
    Vector3d s = v + w, d = v - w, cw = v.cwiseProduct(w), cr = v.cross(w), sc = v * f, ov = v / f; double dt = v.dot(w);
    { Vector3d x = v; x += w; if (x != s) die("v+="); x = v; x -= w; if (x != d) die("v-="); x = v; x *= f; if (x != sc || f * v != sc) die("v*="); x = v; x /= f; if (x != ov) die("v/="); for (int k = 0; k < 3; ++k) if (v(k) != v.getData()[k]) die("components"); if (v(0) != v.x() || v(1) != v.y() || v(2) != v.z()) die("components"); }
    U a = place(g), b = place(g); Vector3d av(a); if (a + w != av + w || a - w != av - w || a * f != av * f || a / f != av / f || a.dot(w) != av.dot(w) || a.cross(w) != av.cross(w) || Vector3d(-a) != -av || a.cwiseProduct(w) != av.cwiseProduct(w)) die("unit vector arithmetic");
    Vector3d rc = g.chance(0.5) ? U::fromNormalized(v).robustCross(U::fromNormalized(w)) : U::fromNormalized(v.x(), v.y(), v.z()).robustCross(U::fromNormalized(w));
    // one unit u for v, w, sums; u*u for products; u*fu for scaled ones
    Com c; c.add(v).add(w).add(s).add(d); Com cf; cf.add(f); Com c2; c2.m = 2 * c.m; c2.add(dt).add(cr).add(cw).add(rc); Com cs; cs.m = c.m + cf.m; cs.add(sc); if (c2.m < 2 * c.m || cs.m < c.m + cf.m) die("a rounded result has more digits than the exact one");
    Com co; co.add(ov); if (co.m == 100000) co.m = 0; int qs = c.m - (co.m + cf.m); if (qs < 0) { co.m += qs; qs = 0; } std::string p2 = "[1"; for (int k = qs / 15; k > 0; --k) p2 += ",0"; p2 += "," + std::to_string(1 << (qs % 15)) + "]";
    J o('{'); o.skey("op", "vec").key("v", c(v)).key("w", c(w)).key("f", cf(f)).key("sum", c(s)).key("dif", c(d)).key("neg", c(-v)).key("dot", c2(dt)).key("cross", c2(cr)).key("cw", c2(cw)).key("robust", c2(rc)).key("scaled", cs(sc)).key("over", co(ov)).key("ov", p2)
        .key("sq", c2(v.getSquaredNorm())).key("dot2", c2(v.dot(v))).key("eq", (v == w) && !(v != w)).key("zero", v.isZero());
    os << o.done() << "\n";
}
static void matrices(Rng & g) {
    int r = g.chance(0.3) ? 1 : g.chance(0.5) ? 9 : 1000; auto num = [&] { return (double)g.range(-r, r); };
    auto mk = [&] { return g.chance(0.1) ? Matrix3d(num()) : g.chance(0.1) ? Matrix3d(Vector3d(num(), num(), num())) : Matrix3d(num(), num(), num(), num(), num(), num(), num(), num(), num()); };
    auto vj = [](Vector3d const & v) { Com c; c.m = 0; return c(v); };
    auto mj = [&](Matrix3d const & m) { J l('['); Com c; c.m = 0; for (int i = 0; i < 3; ++i) { J k('['); for (int j = 0; j < 3; ++j) k.raw(c(m(i, j))); l.raw(k.done()); } return l.done(); };
    auto rj = [&](std::function<Vector3d(int)> f) { J l('['); for (int i = 0; i < 3; ++i) l.raw(vj(f(i))); return l.done(); };
    Matrix3d m = mk(), n = g.chance(0.1) ? m : mk(); Vector3d v(num(), num(), num()); Matrix3d inv; bool reg = m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)) != 0;
    Com ci; ci.m = 0; if (reg) { inv = m.inverse(); for (int i = 0; i < 3; ++i) ci.add(inv.getColumn(i)); }
    J l('['); for (int i = 0; i < 3; ++i) { J k('['); for (int j = 0; j < 3; ++j) k.raw(ci(inv(i, j))); l.raw(k.done()); }
    if (std::fabs(m.getNorm() * m.getNorm() - m.getSquaredNorm()) > 1e-12 * m.getSquaredNorm()) die("norm");
    Matrix3d o(m); Matrix3d as; as = m; if (o != m || as != m) die("copies differ");
    os << J('{').skey("op", "mat").key("m", mj(m)).key("n", mj(n)).key("v", vj(v)).key("prod", mj(m * n)).key("mv", vj(m * v)).key("tr", mj(m.transpose())).key("rows", rj([&](int i) { return m.getRow(i); })).key("cols", rj([&](int i) { return m.getColumn(i); }))
        .key("sum", mj(m + n)).key("dif", mj(m - n)).key("cw", mj(m.cwiseProduct(n))).key("inner", vj(Vector3d(m.inner(n), 0, 0)).substr(1, vj(Vector3d(m.inner(n), 0, 0)).find("]")))
        .key("sq", vj(Vector3d(m.getSquaredNorm(), 0, 0)).substr(1, vj(Vector3d(m.getSquaredNorm(), 0, 0)).find("]"))).key("diag", mj(Matrix3d(v))).key("scalar", mj(Matrix3d(v.x()))).key("eq", (m == n) && !(m != n)).key("inv", l.done()).key("is", -ci.m).done() << "\n";
}
static void fixed() {
    double nan = std::nan(""), inf = INFINITY; if (!NA(nan).isNan() || !NA::nan().isNan() || !Angle::nan().isNan()) die("nan");
    for (int k = 0; k < 3; ++k) { LonLat p(k == 1 ? NA(1) : NA::nan(), k == 0 ? Angle(1) : Angle::nan()); if (!p.getLon().isNan() || !p.getLat().isNan()) die("half a NaN coordinate"); }
    for (int k = 0; k < 3; ++k) { LonLat p(Vector3d(k == 0 ? nan : 1, k == 1 ? nan : 0.5, k == 2 ? nan : 2)); if (p.getLon().isNan() != p.getLat().isNan()) die("half a NaN coordinate"); }
    for (double l : {inf, -inf, 2.0, -2.0}) { bool t = false; try { LonLat(NA(1), Angle(l)); } catch (std::invalid_argument const &) { t = true; } if (!t) die("latitude accepted"); }
    auto zero = [](std::function<void()> f) { try { f(); } catch (std::runtime_error const &) { return; } die("zero vector accepted"); };
    zero([] { Vector3d v; v.normalize(); }); zero([] { U(0, 0, 0); }); zero([] { U(Vector3d(-0.0, 0, -0.0)); }); zero([] { U::orthogonalTo(Vector3d()); });
    if (NA(Vector3d(), Vector3d(1, 2, 3)).asRadians() != 0) die("angle to zero vector");
    if (U() != Vector3d(1, 0, 0) || U::X() != U() || U::Y() != Vector3d(0, 1, 0) || U::Z() != Vector3d(0, 0, 1) || Matrix3d() != Matrix3d(0.0) || NA().asRadians() != 0 || Angle().asRadians() != 0 || LonLat().getLon() != NA() || LonLat().getLat() != Angle() || !Vector3d().isZero()) die("defaults");
}
int main(int, char ** v) {
    os.open(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]); bool alg = v[4][0] == 'm'; if (!alg) fixed();
    for (int i = 0; i < n; ++i) { if (alg) { vectors(g); matrices(g); arith(g); } else { norm1(g); pair(g); coords(g); sep(g); derived(g); } }
    return 0;
}
