// Drives NormalizedAngleInterval and Box objects; records what they report for spec/TraceArc.tla.
#include "util.h"
#include <limits>
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
using namespace lsst::sphgeom;
typedef NormalizedAngleInterval NAI;
static const int C = 48, Q = C / 4;
static double OFF = 0;  // longitude offset of the grid, in units
static double lonv(int k) { return (k + OFF) * (2.0 * PI / C); }
static double latv(int k) { return k == Q ? 0.5 * PI : k == -Q ? -0.5 * PI : k * (2.0 * PI / C); }
static int near(double u) { double r = std::floor(u + 0.5); return std::fabs(u - r) < 1e-6 ? (int)r : -7777; }
static int lonk(Angle a) { return ((near(a.asRadians() * C / (2.0 * PI) - OFF) % C) + C) % C; }
static int lonkRaw(Angle a) { int k = near(a.asRadians() * C / (2.0 * PI) - OFF); return k == -7777 ? -7777 : ((k % C) + C) % C; }
static int latk(Angle a) { return near(a.asRadians() * C / (2.0 * PI)); }
static std::string arcj(NAI const & v) {
    if (v.isEmpty()) return "[]";
    if (v.isFull()) return "[0," + std::to_string(C) + "]";
    return "[" + std::to_string(lonkRaw(v.getA())) + "," + std::to_string(lonkRaw(v.getB())) + "]";
}
static std::string latj(AngleInterval const & v) { return v.isEmpty() ? "[]" : "[" + std::to_string(latk(v.getA())) + "," + std::to_string(latk(v.getB())) + "]"; }
static std::string post(NAI const & v) { return arcj(v); }
static std::string post(Box const & v) {
    if (v.isEmpty()) return v.getLon().isEmpty() && v.getLat().isEmpty() ? "[]" : "[0,0]";
    return "[" + arcj(v.getLon()) + "," + latj(v.getLat()) + "]";
}
static double nan_() { return std::numeric_limits<double>::quiet_NaN(); }
static NormalizedAngle na(int k) { return k < 0 ? NormalizedAngle::nan() : NormalizedAngle(lonv(k)); }
static std::string rel(Relationship r, bool c, bool i, bool d, bool w, bool eq, bool ne) {
    return J('{').key("c", c).key("i", i).key("d", d).key("w", w).key("rc", (bool)((r & CONTAINS) == CONTAINS)).key("rd", (bool)((r & DISJOINT) == DISJOINT))
        .key("rw", (bool)((r & WITHIN) == WITHIN)).key("eq", eq).key("ne", ne).done();
}
static void info(J & e, NAI const & v) {
    if (v.isEmpty()) { e.key("size", 0).key("cen", 0).key("wraps", v.wraps()); return; }
    int cen = near(v.getCenter().asRadians() * C / PI - 2 * OFF);
    e.key("size", v.isFull() ? near(v.getSize().asRadians() * C / (2 * PI)) : near(v.getSize().asRadians() * C / (2 * PI)))
        .key("cen", cen == -7777 ? cen : ((cen % (2 * C)) + 2 * C) % (2 * C)).key("wraps", v.wraps());
}
static void info(J & e, Box const & v) {
    int area = near(v.getArea() * C / PI);
    if (v.isEmpty()) { e.key("size", "[]").key("cen", "[]").key("area", v.getArea() == 0 ? 0 : -1); return; }
    LonLat c = v.getCenter();
    int cen = near(c.getLon().asRadians() * C / PI - 2 * OFF);
    e.key("size", "[" + std::to_string(near(v.getWidth().asRadians() * C / (2 * PI))) + "," + std::to_string(near(v.getHeight().asRadians() * C / (2 * PI))) + "]")
        .key("cen", "[" + std::to_string(cen == -7777 ? cen : ((cen % (2 * C)) + 2 * C) % (2 * C)) + "," + std::to_string(near(c.getLat().asRadians() * C / PI)) + "]").key("area", area);
}
struct PtA {
    typedef NAI T; typedef int P;
    static std::string pj(P p) { return std::to_string(p); }
    static NormalizedAngle arg(P p) { return na(p); }
    static P pick(Rng & g) { return g.chance(0.06) ? -1 : (int)g.below(C); }
};
struct PtB {
    typedef Box T; typedef std::pair<int, int> P;
    static std::string pj(P p) { return "[" + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; }
    static LonLat arg(P p) { return p.first < 0 ? LonLat(NormalizedAngle::nan(), Angle(0.1)) : LonLat(na(p.first), Angle(latv(p.second))); }
    static P pick(Rng & g) { return {g.chance(0.06) ? -1 : (int)g.below(C), g.range(-Q, Q)}; }
};
template <class D> struct H {
    typedef typename D::T T; typedef typename D::P P;
    T v[3];
    std::string lonOf[3], latOf[3];
    J ev{'['};
    static NAI mkArc(std::string const & s) { int a, b; if (sscanf(s.c_str(), "[%d,%d]", &a, &b) != 2) return NAI(); if (b == C) return NAI::full(); return NAI(na(a), na(b)); }
    // rebuild from the table, so that rounding of computed end points does not accumulate
    void snap(int o);
    void mut(J e, int o, T const & cp, bool kept, bool strict = true) {
        e.key("post", post(v[o])).key("cp", post(cp)).key("empty", v[o].isEmpty()).key("full", v[o].isFull()).key("kept", kept).key("strict", strict);
        info(e, v[o]); ev.raw(e.done());
    }
    J op(char const * n, int o) { J e('{'); e.skey("op", n).key("o", o + 1); return e; }
    void clip(int o, int p) { J e = op("clip", o).key("p", p + 1); T q = v[p], b = v[o]; T cp = v[o].clippedTo(v[p]); bool k = v[o] == b; v[o].clipTo(v[p]); mut(e, o, cp, k && (o == p || v[p] == q)); }
    void exp(int o, int p) { J e = op("exp", o).key("p", p + 1); T q = v[p], b = v[o]; T cp = v[o].expandedTo(v[p]); bool k = v[o] == b; v[o].expandTo(v[p]); mut(e, o, cp, k && (o == p || v[p] == q)); }
    void clipp(int o, P x) { J e = op("clipp", o).key("x", D::pj(x)); T cp = v[o].clippedTo(D::arg(x)); v[o].clipTo(D::arg(x)); mut(e, o, cp, true); }
    void expp(int o, P x) { J e = op("expp", o).key("x", D::pj(x)); T cp = v[o].expandedTo(D::arg(x)); v[o].expandTo(D::arg(x)); mut(e, o, cp, true); }
    void asg(int o, int p) { J e = op("asg", o).key("p", p + 1); v[o] = v[p]; T cp(v[p]); mut(e, o, cp, true); }
    void q(int o, int p) { ev.raw(op("q", o).key("p", p + 1).key("ans", rel(v[o].relate(v[p]), v[o].contains(v[p]), v[o].intersects(v[p]), v[o].isDisjointFrom(v[p]), v[o].isWithin(v[p]), v[o] == v[p], v[o] != v[p])).done()); }
    void qp(int o, P x) { auto a = D::arg(x); ev.raw(op("qp", o).key("x", D::pj(x)).key("ans", rel(v[o].relate(a), v[o].contains(a), v[o].intersects(a), v[o].isDisjointFrom(a), v[o].isWithin(a), v[o] == a, v[o] != a)).done()); }
};
template <> void H<PtA>::snap(int o) { v[o] = mkArc(post(v[o])); }
template <> void H<PtB>::snap(int o) {
    if (v[o].isEmpty()) { v[o] = Box(); return; }
    v[o] = Box(mkArc(arcj(v[o].getLon())), AngleInterval(Angle(latv(latk(v[o].getLat().getA()))), Angle(latv(latk(v[o].getLat().getB())))));
}
static int lenk(NAI const & a) { if (a.isEmpty()) return -1; if (a.isFull()) return C; return ((lonk(a.getB()) - lonk(a.getA())) % C + C) % C; }
static NAI randomArc(Rng & g, std::string & j) {
    int how = g.below(12), a = g.below(C), b = g.below(C);
    if (g.chance(0.3)) b = (a + g.range(0, 5)) % C;
    if (g.chance(0.2)) b = (a - g.range(1, 5) + C) % C;
    if (how == 0) { j = "[0,48]"; return NAI::full(); }
    if (how == 1) { j = "[]"; return g.chance(0.5) ? NAI::empty() : g.chance(0.5) ? NAI(NormalizedAngle::nan(), na(b)) : NAI(na(a), NormalizedAngle::nan()); }
    if (how == 2) { j = "[]"; return NAI(Angle(nan_()), Angle(1.0)); }
    if (how == 3) { j = "[" + std::to_string(a) + "," + std::to_string(a) + "]"; return g.chance(0.5) ? NAI(na(a)) : NAI(Angle(lonv(a))); }
    j = "[" + std::to_string(a) + "," + std::to_string(b) + "]";
    if (how == 4) return NAI::fromRadians(lonv(a), lonv(b));
    return NAI(na(a), na(b));
}
static void setArc(H<PtA> & h, int o, NAI const & x, std::string const & j) { h.v[o] = x; J e = h.op("set", o).key("lon", j); h.mut(e, o, x, true); }
static bool tie(NAI const & a, int d) { int L = lenk(a); return L >= 0 && L < C && d != 0 && (2 * d + L == C || 2 * d + L == 0); }
static void arcHist(std::ostream & os, Rng & g, int len) {
    H<PtA> h; bool metric = g.chance(0.5); OFF = metric ? 0.25 : 0;
    for (int o = 0; o < 3; ++o) { std::string j; NAI x = randomArc(g, j); setArc(h, o, x, j); }
    for (int s = 0; s < len; ++s) {
        int o = g.below(3), p = g.below(3);
        switch (g.below(14)) {
            case 0: case 1: { std::string j; NAI x = randomArc(g, j); setArc(h, o, x, j); break; }
            case 2: case 3: h.clip(o, p); break;
            case 4: h.exp(o, p); break;
            case 5: if (g.chance(0.3)) h.clipp(o, PtA::pick(g)); break;
            case 6: h.expp(o, PtA::pick(g)); break;
            case 7: case 8: if (metric) {
                int d = g.chance(0.15) ? g.range(-60, 60) : g.range(-12, 12); if (tie(h.v[o], d)) break;
                J e = h.op("dil", o).key("k", d); double r = d * (2.0 * PI / C);
                NAI cp; if (g.chance(0.5)) { cp = h.v[o].dilatedBy(Angle(r)); h.v[o].dilateBy(Angle(r)); } else { cp = h.v[o].erodedBy(Angle(-r)); h.v[o].erodeBy(Angle(-r)); }
                h.mut(e, o, cp, true, h.v[o].isEmpty() || h.v[o].isFull()); h.snap(o); break; }
                // NaN dilation has no effect
                { J e = h.op("dil", o).key("k", 0); NAI cp = h.v[o].dilatedBy(Angle(nan_())); h.v[o].dilateBy(Angle(g.chance(0.5) ? nan_() : 0.0)); h.mut(e, o, cp, true); }
                break;
            case 9: if (metric) {
                int a = g.range(-2 * C, 2 * C), b = g.chance(0.8) ? a + g.range(0, C + 5) : g.range(-2 * C, 2 * C);
                if (b - a == C || a == C || b == C || a % C == 0 || b % C == 0) break;
                bool thr = false; NAI x = h.v[o];
                try { x = NAI(Angle(lonv(a)), Angle(lonv(b))); } catch (std::invalid_argument const &) { thr = true; }
                // positions are offset by a quarter unit, so position 0..C-1 means normalized
                h.v[o] = x; J e = h.op("ctor", o).key("a", a).key("b", b).key("thr", thr); h.mut(e, o, x, true, false); h.snap(o); break; }
            case 10: if (g.chance(0.3)) h.asg(o, p); break;
            case 11: h.qp(o, PtA::pick(g)); break;
            default: h.q(o, p); break;
        }
    }
    os << J('{').skey("kind", "arc").key("ev", h.ev.done()).done() << "\n";
}
static void arcPairs(std::ostream & os, int stepx) {
    for (double off : {0.0, 0.25}) {
        OFF = off;
        std::vector<std::string> all{"[]", "[0,48]"};
        for (int a = 0; a < C; a += stepx) for (int b = 0; b < C; b += stepx) all.push_back("[" + std::to_string(a) + "," + std::to_string(b) + "]");
        for (auto & x : all) {
            H<PtA> h; NAI X = H<PtA>::mkArc(x);
            for (auto & y : all) {
                setArc(h, 0, X, x); setArc(h, 1, H<PtA>::mkArc(y), y);
                h.q(0, 1); h.clip(0, 1); h.v[0] = X; setArc(h, 0, X, x); h.exp(0, 1);
            }
            for (int k = 0; k < C; k += stepx / 2) { setArc(h, 0, X, x); h.qp(0, k); h.clipp(0, k); setArc(h, 0, X, x); h.expp(0, k); }
            if (off) for (int d = -30; d <= 30; ++d) if (!tie(X, d)) {
                setArc(h, 0, X, x); J e = h.op("dil", 0).key("k", d); Angle r(d * (2.0 * PI / C)); NAI cp = X.erodedBy(-r); h.v[0].dilateBy(r); h.mut(e, 0, cp, true, false); h.snap(0);
            }
            os << J('{').skey("kind", "arc").key("ev", h.ev.done()).done() << "\n";
        }
    }
}
static void setBox(H<PtB> & h, int o, Box const & x, std::string const & lon, std::string const & lat) { h.v[o] = x; J e = h.op("set", o).key("lon", lon).key("lat", lat); h.mut(e, o, x, true); }
static void randomBox(H<PtB> & h, int o, Rng & g) {
    std::string j; NAI lon = randomArc(g, j); int a = g.range(-Q, Q), b = g.range(-Q, Q);
    if (g.chance(0.1)) a = -Q; if (g.chance(0.1)) b = Q; if (g.chance(0.1)) b = a;
    if (a > b && !g.chance(0.1)) std::swap(a, b);
    auto LL = [&] { return "[" + std::to_string(a) + "," + std::to_string(b) + "]"; };
    int how = g.below(12);
    if (how == 0) { setBox(h, o, Box::full(), "[0,48]", "[-12,12]"); return; }
    if (how == 1) { setBox(h, o, g.chance(0.5) ? Box() : Box::empty(), "[]", "[]"); return; }
    if (how == 2) { auto p = PtB::pick(g); if (p.first >= 0) setBox(h, o, Box(PtB::arg(p)), "[" + std::to_string(p.first) + "," + std::to_string(p.first) + "]", "[" + std::to_string(p.second) + "," + std::to_string(p.second) + "]"); return; }
    if (how == 3) { int x = g.below(C), y = g.below(C); setBox(h, o, Box(LonLat(na(x), Angle(latv(a))), LonLat(na(y), Angle(latv(b)))), "[" + std::to_string(x) + "," + std::to_string(y) + "]", LL()); return; }
    if (how == 4 && OFF) {
        auto p = PtB::pick(g); if (p.first < 0) return; int w = g.range(-3, 30), hh = g.range(-2, 14);
        if (2 * w == C || w == 0 || hh == 0 || std::abs(p.second) + hh == Q) return;
        Box x(PtB::arg(p), Angle(w * (2.0 * PI / C)), Angle(hh * (2.0 * PI / C)));
        h.v[o] = x; J e = h.op("aro", o).key("x", PtB::pj(p)).key("k", "[" + std::to_string(w) + "," + std::to_string(hh) + "]"); h.mut(e, o, x, true, false); h.snap(o); return;
    }
    if (how == 5) {  // latitudes beyond the poles are cut off
        a -= g.range(0, 9); b += g.range(0, 9); double la = a < -Q ? a * (2.0 * PI / C) : latv(a), lb = b > Q ? b * (2.0 * PI / C) : latv(b);
        setBox(h, o, Box(lon, AngleInterval(Angle(la), Angle(lb))), j, LL()); return;
    }
    if (how == 6) { std::string s = j; int x, y; if (sscanf(s.c_str(), "[%d,%d]", &x, &y) == 2 && y < C) { setBox(h, o, Box::fromRadians(lonv(x), latv(a), lonv(y), latv(b)), j, LL()); return; } }
    setBox(h, o, Box(lon, AngleInterval(Angle(latv(a)), Angle(latv(b)))), j, LL());
}
static bool latTie(Box const & b, int h) {
    if (b.isEmpty() || b.isFull()) return false;
    int x = latk(b.getLat().getA()), y = latk(b.getLat().getB());
    int x2 = x > -Q ? x - h : x, y2 = y < Q ? y + h : y;
    return h != 0 && (x2 == y2 || x2 == -Q || y2 == Q || x2 == Q || y2 == -Q);
}
static void boxHist(std::ostream & os, Rng & g, int len) {
    H<PtB> h; bool metric = g.chance(0.6); OFF = metric ? 0.25 : 0;
    for (int o = 0; o < 3; ++o) { setBox(h, o, Box(), "[]", "[]"); randomBox(h, o, g); }
    for (int s = 0; s < len; ++s) {
        int o = g.below(3), p = g.below(3);
        switch (g.below(15)) {
            case 0: case 1: case 2: randomBox(h, o, g); break;
            case 3: h.clip(o, p); break;
            case 4: case 5: h.exp(o, p); break;
            case 6: if (g.chance(0.3)) h.clipp(o, PtB::pick(g)); break;
            case 7: h.expp(o, PtB::pick(g)); break;
            case 8: case 9: if (metric) {
                int w = g.range(-10, 14), hh = g.chance(0.1) ? g.range(-30, 30) : g.range(-5, 6);
                if (tie(h.v[o].getLon(), w) || latTie(h.v[o], hh)) break;
                J e = h.op("dil2", o).key("k", "[" + std::to_string(w) + "," + std::to_string(hh) + "]"); Angle aw(w * (2.0 * PI / C)), ah(hh * (2.0 * PI / C));
                Box cp, b = h.v[o]; if (g.chance(0.5)) { cp = h.v[o].dilatedBy(aw, ah); h.v[o].dilateBy(aw, ah); } else { cp = h.v[o].erodedBy(-aw, -ah); h.v[o].erodeBy(-aw, -ah); }
                h.mut(e, o, cp, true, false); h.snap(o); }
                break;
            case 10: case 11: if (metric) {
                int r = g.range(-3, 8); Box b = h.v[o];
                if (latTie(b, r)) break;
                if (!b.isEmpty() && !b.isFull() && std::max(std::abs(latk(b.getLat().getA())), std::abs(latk(b.getLat().getB()))) + r == Q) break;
                Angle ar(r * (2.0 * PI / C)); Box cp, d = b;
                if (g.chance(0.5)) { cp = b.dilatedBy(ar); d.dilateBy(ar); } else { cp = b.erodedBy(-ar); d.erodeBy(-ar); }
                int grow = 0; bool same = (cp == d);
                if (!b.isEmpty()) {
                    NAI x = b.getLon(), y = d.getLon();
                    if (y.isFull()) grow = b.isFull() || r <= 0 ? 0 : C;
                    else {
                        double gl = y.getA().getAngleTo(x.getA()).asRadians(), gr = x.getB().getAngleTo(y.getB()).asRadians();
                        if (d == b) gl = gr = 0;
                        grow = std::fabs(gl - gr) < 1e-9 ? (int)std::floor(gl * C / (2 * PI) + 1e-7) : -5;
                    }
                    // report with the old longitudes; the growth is reported separately
                    if (!d.isEmpty()) d = Box(b.getLon(), d.getLat());
                }
                h.v[o] = d; J e = h.op("dilr", o).key("k", r).key("grow", grow); h.mut(e, o, d, same, false); h.snap(o); }
                break;
            case 12: if (g.chance(0.3)) h.asg(o, p); break;
            case 13: h.qp(o, PtB::pick(g)); break;
            default: h.q(o, p); break;
        }
    }
    os << J('{').skey("kind", "box").key("ev", h.ev.done()).done() << "\n";
}
int main(int, char ** v) {
    std::string m = v[1]; std::ofstream os(v[2]); Rng g(atoll(v[3])); int n = atoi(v[4]), len = atoi(v[5]), step = atoi(v[6]);
    if (m == "arc") { arcPairs(os, step); for (int i = 0; i < n; ++i) arcHist(os, g, len); }
    else for (int i = 0; i < n; ++i) boxHist(os, g, len);
    return 0;
}
