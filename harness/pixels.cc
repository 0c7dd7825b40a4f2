// Records answers of the pixelizations (spec/TracePixel.tla).
#include "sphere.h"
#include <algorithm>
#include <set>
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
static std::ofstream os;
typedef std::shared_ptr<Pixelization> Pix;
typedef uint64_t u64;
static char const * K[3] = {"htm", "q3c", "mq3c"};
static int const MAXL[3] = {24, 30, 30};
static Pix mk(int k, int l) { switch (k) { case 0: return std::make_shared<HtmPixelization>(l); case 1: return std::make_shared<Q3cPixelization>(l); default: return std::make_shared<Mq3cPixelization>(l); } }
static u64 lo(int k, int l) { return (u64)(k == 0 ? 8 : k == 1 ? 0 : 10) << (2 * l); }
static u64 count(int k, int l) { return (u64)(k == 0 ? 8 : 6) << (2 * l); }
static std::vector<U> verts(Pix const & p, u64 i) { auto r = p->pixel(i); return dynamic_cast<ConvexPolygon const &>(*r).getVertices(); }
static std::string ptsJ(std::vector<U> const & w) { J l('['); for (auto const & u : w) l.raw(ptJ(u)); return l.done(); }
static std::string bigsJ(std::vector<u64> const & w) { J l('['); for (u64 u : w) l.raw(big(u)); return l.done(); }
static std::string pixJ(Pix const & p, std::vector<u64> const & is) { J l('['); for (u64 i : is) l.raw(J('{').key("i", big(i)).key("v", ptsJ(verts(p, i))).done()); return l.done(); }
static std::vector<u64> indexes(Pix const & p, std::vector<U> const & w) { std::vector<u64> r; for (auto const & u : w) r.push_back(p->index(u)); return r; }
static int level(Rng & g, int k) { int m = MAXL[k]; switch (g.below(6)) { case 0: return 0; case 1: return g.range(0, 3); case 2: return m; default: return g.range(0, m); } }
// cube corners, edges and quadrant boundaries, exactly and nearly
static U corner(Rng & g) {
    double c[3]; for (auto & x : c) x = g.below(3) - 1.0; if (c[0] == 0 && c[1] == 0 && c[2] == 0) c[g.below(3)] = g.chance(0.5) ? 1 : -1;
    if (g.chance(0.6)) c[g.below(3)] *= g.uni(); if (c[0] == 0 && c[1] == 0 && c[2] == 0) c[2] = 1;
    U u(c[0], c[1], c[2]); return g.chance(0.4) ? near(g, u, std::pow(10, -g.real(1, 16))) : u;
}
static u64 anyIndex(Rng & g, int k, int l) {
    switch (g.below(4)) {
        case 0: return mk(k, l)->index(g.chance(0.3) ? place(g) : corner(g));
        case 1: { u64 f = g.below(k == 0 ? 8 : 6); u64 c = g.below(4), d = g.below(4); u64 i = f; for (int j = 0; j < l; ++j) i = 4 * i + (g.chance(0.9) ? c : d); return lo(k, l) + i; } // near a corner
        case 2: return lo(k, l) + (g.chance(0.5) ? g.below(std::min<u64>(4, count(k, l))) : count(k, l) - 1 - g.below(std::min<u64>(4, count(k, l))));
        default: return lo(k, l) + g.below(count(k, l));
    }
}
// points at and around the vertices and edges of pixel i
static void around(Rng & g, std::vector<U> const & v, std::vector<U> & w, int n) {
    double s = std::sqrt((v[0] - v[1]).getSquaredNorm());
    for (int j = 0; j < n; ++j) {
        size_t a = g.below(v.size()), b = (a + 1) % v.size(); double t = g.uni(); U p;
        switch (g.below(6)) {
            case 0: p = v[a]; break;
            case 1: p = U(Vector3d(v[a]) * (1 - t) + Vector3d(v[b]) * t); break;
            case 2: { Vector3d c; for (auto const & u : v) c += Vector3d(u) * g.uni(); p = U(c); break; }
            case 3: { Vector3d c; for (auto const & u : v) c += Vector3d(u); p = U(c); break; }
            case 4: p = near(g, v[a], s * std::pow(10, -g.real(0, 7))); break;
            default: p = near(g, U(Vector3d(v[a]) * (1 - t) + Vector3d(v[b]) * t), s * std::pow(10, -g.real(0, 7))); break;
        }
        w.push_back(p);
    }
}
static void index(Rng & g) {
    int k = g.below(3), l = level(g, k); Pix p = mk(k, l); std::vector<U> w; std::vector<u64> is;
    for (int j = 0; j < 3; ++j) is.push_back(anyIndex(g, k, l));
    for (u64 i : is) around(g, verts(p, i), w, 5);
    for (int j = 0; j < 4; ++j) { w.push_back(g.chance(0.5) ? place(g) : corner(g)); }
    // signed zeros
    if (g.chance(0.3)) { double z[3] = {g.chance(0.5) ? 0.0 : -0.0, g.chance(0.5) ? 0.0 : -0.0, g.chance(0.5) ? 0.0 : -0.0}; z[g.below(3)] = g.chance(0.5) ? 1 : -1; if (g.chance(0.5)) { double x = g.real(-1, 1); z[g.below(3)] = x == 0 ? 1 : x; } double n = std::sqrt(z[0] * z[0] + z[1] * z[1] + z[2] * z[2]); w.push_back(UnitVector3d::fromNormalized(z[0] / n, z[1] / n, z[2] / n)); }
    std::vector<u64> ix = indexes(p, w); J ok('[');
    std::vector<bool> in; for (size_t j = 0; j < w.size(); ++j) { bool b; try { auto r = p->pixel(ix[j]); b = r->contains(w[j]); } catch (std::exception const &) { b = false; } ok.raw(boolj(b)); in.push_back(b); }
    is.push_back(ix[g.below(ix.size())]); if (k == 0) for (size_t j = 0; j < w.size(); ++j) if (!in[j]) is.push_back(ix[j]);
    std::vector<u64> good; for (u64 i : is) if (i >= lo(k, l) && i - lo(k, l) < count(k, l)) good.push_back(i);
    os << J('{').skey("op", "index").skey("k", K[k]).key("l", l).key("p", ptsJ(w)).key("ix", bigsJ(ix)).key("ok", ok.done()).key("pix", pixJ(p, good)).done() << "\n";
}
template <class F> static bool throwsIA(F f) { try { f(); return false; } catch (std::invalid_argument const &) { return true; } }
static u64 weird(Rng & g, int k, int l) {
    switch (g.below(7)) {
        case 0: return g.below(20);
        case 1: return g.next() >> g.below(64);
        case 2: return lo(k, l) + count(k, l) - (g.chance(0.5) ? 1 : 0);
        case 3: return lo(k, l) - (g.chance(0.5) ? 1 : 0);
        case 4: return (u64)g.below(16) << g.below(61);
        case 5: return ((u64)g.below(64) << g.below(59)) | g.below(4);
        default: return lo(k, l) + g.below(count(k, l));
    }
}
static void refuse(Rng & g) {
    int k = g.below(3), l = level(g, k); u64 i = weird(g, k, l); Pix p = mk(k, l); bool own = k == 2 && g.chance(0.5), t, agree = true;
    if (k == 0) { t = throwsIA([&] { p->pixel(i); }); agree = t == throwsIA([&] { HtmPixelization::triangle(i); }); }
    else if (k == 1) { t = throwsIA([&] { p->pixel(i); }); auto & q = dynamic_cast<Q3cPixelization &>(*p); agree = t == throwsIA([&] { q.quad(i); }) && t == throwsIA([&] { q.neighborhood(i); }); }
    else if (own) { t = throwsIA([&] { Mq3cPixelization::quad(i); }); agree = t == throwsIA([&] { Mq3cPixelization::neighborhood(i); }); }
    else t = throwsIA([&] { p->pixel(i); });
    os << J('{').skey("op", "refuse").skey("k", K[k]).key("l", l).key("i", big(i)).key("own", own).key("threw", agree ? t : !t).done() << "\n";
    int L = g.chance(0.5) ? g.range(-2, 33) : (int)g.next(); bool c = throwsIA([&] { mk(k, L); });
    os << J('{').skey("op", "ctor").skey("k", K[k]).key("l", L).key("threw", c).done() << "\n";
    // the universe is what the specification says
    RangeSet s = p->universe(); bool one = s == RangeSet(lo(k, l), lo(k, l) + count(k, l));
    if (!one) os << J('{').skey("op", "ctor").skey("k", K[k]).key("l", l).key("threw", true).done() << "\n";
}
static void nest(Rng & g) {
    int k = g.below(3), l = std::min(level(g, k), MAXL[k] - 1); Pix p = mk(k, l), q = mk(k, l + 1); u64 i = anyIndex(g, k, l); std::vector<U> w, par = verts(p, i);
    around(g, par, w, 4); J ch('['); for (int c = 0; c < 4; ++c) { auto v = verts(q, 4 * i + c); ch.raw(ptsJ(v)); around(g, v, w, 2); } w.push_back(place(g)); w.push_back(corner(g));
    std::vector<u64> a = indexes(p, w), b = indexes(q, w);
    // every level above, too
    for (size_t j = 0; j < w.size(); ++j) for (int m = 0; m < l; ++m) if (mk(k, m)->index(w[j]) != a[j] >> (2 * (l - m))) { b[j] = ~a[j]; break; }
    os << J('{').skey("op", "nest").skey("k", K[k]).key("l", l).key("p", ptsJ(w)).key("ix0", bigsJ(a)).key("ix1", bigsJ(b)).key("par", ptsJ(par)).key("ch", ch.done()).done() << "\n";
}
static void name(Rng & g) {
    int k = g.below(3), l = level(g, k); Pix p = mk(k, l); u64 i = g.chance(0.5) ? anyIndex(g, k, l) : weird(g, k, l); std::string s; bool ok = true; int lev = -1;
    try { s = p->toString(i); } catch (std::invalid_argument const &) { ok = false; }
    if (k == 0) { lev = HtmPixelization::level(i); if (ok && s != HtmPixelization::asString(i)) s += "?"; } if (k == 2) { lev = Mq3cPixelization::level(i); if (ok && s != Mq3cPixelization::asString(i)) s += "?"; }
    std::vector<U> v; if (ok) try { if (k == 0) v = HtmPixelization::triangle(i).getVertices(); else if (k == 1) v = dynamic_cast<Q3cPixelization &>(*p).quad(i).getVertices(); else v = Mq3cPixelization::quad(i).getVertices(); } catch (std::exception const &) { ok = false; }
    J n('['); for (char c : s) n.str(c >= 32 && c < 127 && c != '"' && c != '\\' ? std::string(1, c) : "?");
    // the geometry of the pixel is the same whoever is asked
    if (ok && k != 1 && lev >= 0 && lev <= MAXL[k]) { if (verts(mk(k, lev), i) != v) ok = !ok; }
    os << J('{').skey("op", "name").skey("k", K[k]).key("l", l).key("i", big(i)).key("named", ok).key("name", n.done()).key("lev", lev).key("v", ptsJ(v)).done() << "\n";
}
static std::vector<u64> nbrs(Pix const & p, int k, u64 i) { return k == 1 ? dynamic_cast<Q3cPixelization &>(*p).neighborhood(i) : Mq3cPixelization::neighborhood(i); }
static void nbr(Rng & g, int k, int l, u64 i) {
    Pix p = mk(k, l); std::vector<u64> nb = nbrs(p, k, i); std::vector<U> v = verts(p, i); std::set<u64> cand(nb.begin(), nb.end());
    double s = std::sqrt((v[0] - v[1]).getSquaredNorm()); Vector3d m; for (auto const & u : v) m += Vector3d(u); U c(m);
    for (auto const & u : v) { U t = tangent(g, u); U b(u.cross(t)); for (int j = 0; j < 12; ++j) { double a = (j + 0.3) * 6.2831853 / 12, e = 0.1; cand.insert(p->index(step(u, U(Vector3d(t) * std::cos(a) + Vector3d(b) * std::sin(a)), s * e))); } }
    { U t = tangent(g, c); U b(c.cross(t)); for (int j = 0; j < 6; ++j) { double a = g.real(0, 6.28); cand.insert(p->index(step(c, U(Vector3d(t) * std::cos(a) + Vector3d(b) * std::sin(a)), std::min(3.0, s * g.real(1.5, 3))))); } }
    bool sym = true; std::vector<u64> good, gb;
    for (u64 x : nb) { if (x < lo(k, l) || x - lo(k, l) >= count(k, l)) { sym = false; continue; } auto y = nbrs(p, k, x); if (std::find(y.begin(), y.end(), i) == y.end()) sym = false; }
    for (u64 x : cand) if (x >= lo(k, l) && x - lo(k, l) < count(k, l)) good.push_back(x);
    os << J('{').skey("op", "nbr").skey("k", K[k]).key("l", l).key("i", big(i)).key("v", ptsJ(v)).key("nb", bigsJ(nb)).key("cand", pixJ(p, good)).key("sym", sym).done() << "\n";
}
static std::string rangesJ(RangeSet const & s) {
    J j('['); for (auto const & r : s) { auto a = std::get<0>(r), b = std::get<1>(r); j.raw("[" + big(a) + "," + (b == 0 ? bigMag(1, (unsigned __int128)1 << 64) : big(b)) + "]"); } return j.done();
}
static void sample(Rng & g, RangeSet const & s, std::set<u64> & out, int n, u64 lo, u64 cnt) {
    std::vector<std::pair<u64, u64>> r; for (auto const & x : s) r.push_back({std::get<0>(x), std::get<1>(x)}); if (r.empty()) return;
    for (int j = 0; j < n; ++j) { auto const & x = r[g.below(r.size())]; u64 a = x.first, w = x.second - x.first, i = a; switch (g.below(3)) { case 0: break; case 1: i = a + w - 1; break; default: i = a + g.below(w); } if (i >= lo && i - lo < cnt) out.insert(i); }
}
// the extent of the boundary
static double extent(Region const & r, double a) {
    if (auto c = dynamic_cast<CompoundRegion const *>(&r)) return std::max(extent(c->getOperand(0), a), extent(c->getOperand(1), a));
    if (auto b = dynamic_cast<Box const *>(&r)) { if (b->isEmpty()) return a; return std::max(a, std::min(1.5, std::max(b->getLat().getSize().asRadians(), b->getLon().getSize().asRadians() * (b->getLat().contains(Angle(0)) ? 1 : std::max(std::cos(b->getLat().getA().asRadians()), std::cos(b->getLat().getB().asRadians())))))); }
    if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) return std::max(a, std::min(1.5, p->getBoundingCircle().getOpeningAngle().asRadians()));
    if (auto p = dynamic_cast<Circle const *>(&r)) { double t = p->getOpeningAngle().asRadians(); return t > 0 && t < M_PI ? std::max(a, std::sin(t)) : a; }
    return a;
}
static void region(Rng & g, bool interior) {
    int k = g.below(3); double a = g.chance(0.6) ? size(g, 1e-8) : std::pow(10, g.real(-8, 0.3)); U c = g.chance(0.3) ? corner(g) : place(g);
    Shape s = genShape(g, c, std::min(a, 1.6), g.chance(0.3) ? 2 : 0);
    a = std::min(1.5, extent(*s.r, a));
    // pixels are about 1.5 / 2^l wide
    int fit = (int)std::floor(std::log2(1.5 / std::min(a, 1.5)) + g.real(0.3, interior ? 4.2 : 3.3)), l = std::max(0, std::min(MAXL[k], fit)); bool full = true;
    if (g.chance(0.25)) { l = std::min(MAXL[k], l + g.range(1, 12)); full = false; } else if (g.chance(0.15)) l = std::max(0, l - g.range(1, 6));
    Pix p = mk(k, l); size_t cap = g.chance(0.1) && full ? 0 : g.chance(0.6) ? g.range(1, 8) : g.range(9, 60);
    RangeSet f, C, env; 
    if (full) f = interior ? p->interior(*s.r) : p->envelope(*s.r);
    if (f.size() > 400) { full = false; f.clear(); cap = cap ? cap : 8; }
    C = interior ? p->interior(*s.r, cap) : p->envelope(*s.r, cap); if (interior && full) env = p->envelope(*s.r);
    std::vector<U> w = witnesses(g, {s.r.get()}, 16, a); std::set<u64> ps; RangeSet const & S = full ? f : C; sample(g, S, ps, full ? 8 : 3, lo(k, l), count(k, l)); if (interior) sample(g, C, ps, 3, lo(k, l), count(k, l));
    if (full && !f.empty()) { std::set<u64> e; sample(g, f, e, 1, lo(k, l), count(k, l)); for (u64 i : e) around(g, verts(p, i), w, 2); }
    std::vector<u64> ix = indexes(p, w); if (interior) for (int j = 0; j < 6; ++j) ps.insert(ix[g.below(ix.size())]);
    J o('{'); o.skey("op", interior ? "int" : "env").skey("k", K[k]).key("l", l).key("r", s.d).key("p", ptsJ(w)).key("ix", bigsJ(ix)).key("full", full).key("f", rangesJ(f)).key("c", rangesJ(C)).key("cap", (int)cap).key("pix", pixJ(p, std::vector<u64>(ps.begin(), ps.end())));
    if (interior) o.key("env", rangesJ(env)); os << o.done() << "\n";
}
int main(int argc, char ** argv) {
    std::string mode = argv[1]; os.open(argv[2]); Rng g(std::strtoull(argv[3], 0, 10)); int n = std::atoi(argv[4]);
    // every cell of the coarsest grids
    if (mode == "nbr") for (int k = 1; k < 3; ++k) for (int l = 0; l < (n > 5000 ? 5 : 3); ++l) for (u64 j = 0; j < count(k, l); ++j) nbr(g, k, l, lo(k, l) + j);
    for (int i = 0; i < n; ++i) {
        if (mode == "index") { index(g); if (i % 3 == 0) refuse(g); }
        else if (mode == "nest") { nest(g); name(g); name(g); }
        else if (mode == "nbr") { int k = 1 + g.below(2), l = level(g, k); nbr(g, k, l, anyIndex(g, k, l)); }
        else region(g, mode == "int");
    }
}
