// Drives Interval1d, AngleInterval and Box3d objects and records what they report (see spec/TraceInterval.tla).
#include "util.h"
#include <limits>
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/Vector3d.h"
using namespace lsst::sphgeom;
static const int INF = 1000, NAN_ = 9999;
static double UNIT = 0.25;
static double dbl(int k) {
    if (k == NAN_) return std::numeric_limits<double>::quiet_NaN();
    if (k >= INF) return std::numeric_limits<double>::infinity();
    if (k <= -INF) return -std::numeric_limits<double>::infinity();
    return k * UNIT;
}
static int idx(double v) {
    if (v != v) return NAN_;
    if (std::isinf(v)) return v > 0 ? INF : -INF;
    double k = v / UNIT;
    return k == std::floor(k) && std::fabs(k) < 500 ? (int)k : 7777;
}
static double num(double d) { return d; }
static double num(Angle a) { return a.asRadians(); }
static std::string rel(Relationship r, bool c, bool i, bool d, bool w, bool eq, bool ne) {
    return J('{').key("c", c).key("i", i).key("d", d).key("w", w).key("rc", (bool)((r & CONTAINS) == CONTAINS)).key("rd", (bool)((r & DISJOINT) == DISJOINT))
        .key("rw", (bool)((r & WITHIN) == WITHIN)).key("eq", eq).key("ne", ne).done();
}

template <class IV, class SC> struct One {
    typedef IV T;
    static SC sc(int k) { return SC(dbl(k)); }
    static std::string post(T const & v) { return v.isEmpty() ? "[]" : "[" + std::to_string(idx(num(v.getA()))) + "," + std::to_string(idx(num(v.getB()))) + "]"; }
    static bool full(T const & v) { return !v.isEmpty() && v == IV::full(); }
    static int size(T const & v) { return idx(num(v.getSize())); }
    static void sizes(J & j, T const & v) {
        if (v.isEmpty()) { double s = num(v.getSize()); j.key("size", s != s || s < 0 ? 0 : 1).key("cen", 0); return; }
        j.key("size", idx(num(v.getSize()))).key("cen", idx(2 * num(v.getCenter())));
    }
    typedef int Pos;
    static int pos(Rng & g, int m, bool sc) { if (g.chance(0.06)) return INF; if (g.chance(0.06)) return -INF; if (g.chance(sc ? 0.08 : 0.04)) return NAN_; return g.range(-m, m); }
    static int dil(Rng & g, int m) { return g.chance(0.06) ? NAN_ : g.range(-m, m); }
    static T make(Rng & g, int m, std::string & raw) {
        int a = pos(g, m, false), b = g.chance(0.15) ? a : pos(g, m, false);
        if (a != NAN_ && b != NAN_ && a > b && !g.chance(0.1)) std::swap(a, b);
        int how = g.below(10);
        if (how == 0) { a = -INF; b = INF; raw = "[-1000,1000]"; return IV::full(); }
        if (how == 1) { raw = "[9999,9999]"; return g.chance(0.5) ? IV() : IV::empty(); }
        if (how == 2) { raw = "[" + std::to_string(a) + "," + std::to_string(a) + "]"; return IV(sc(a)); }
        raw = "[" + std::to_string(a) + "," + std::to_string(b) + "]";
        return IV(sc(a), sc(b));
    }
    static std::string pj(int p) { return std::to_string(p); }
    static SC arg(int p) { return sc(p); }
    static T & dilate(T & v, int k) { v.dilateBy(sc(k)); return v; }
    static T dilated(T const & v, int k) { return T(v.dilatedBy(sc(k))); }
    static T & erode(T & v, int k) { v.erodeBy(sc(k)); return v; }
    static T eroded(T const & v, int k) { return T(v.erodedBy(sc(k))); }
};
struct Three {
    typedef Box3d T;
    typedef std::vector<int> Pos;
    typedef One<Interval1d, double> O;
    static std::string post(T const & v) {
        if (v.isEmpty()) return v.x().isEmpty() && v.y().isEmpty() && v.z().isEmpty() ? "[]" : "[0]";
        return "[" + O::post(v.x()) + "," + O::post(v(1)) + "," + O::post(v.z()) + "]";
    }
    static bool full(T const & v) { return v.isFull(); }
    static void sizes(J & j, T const & v) {
        if (v.isEmpty()) { j.key("size", "[]").key("cen", "[]"); return; }
        Vector3d c = v.getCenter();
        j.key("size", "[" + std::to_string(idx(v.getWidth())) + "," + std::to_string(idx(v.getHeight())) + "," + std::to_string(idx(v.getDepth())) + "]")
         .key("cen", "[" + std::to_string(idx(2 * c.x())) + "," + std::to_string(idx(2 * c.y())) + "," + std::to_string(idx(2 * c.z())) + "]");
    }
    static Pos pos(Rng & g, int m, bool) {
        if (g.chance(0.06)) return {NAN_, NAN_, NAN_};
        auto one = [&] { return g.chance(0.05) ? INF : g.chance(0.05) ? -INF : g.range(-m, m); };
        return {one(), one(), one()};
    }
    static Pos dil(Rng & g, int m) {
        if (g.chance(0.3)) { int k = g.range(-m, m); return {k, k, k}; }
        Pos p; for (int i = 0; i < 3; ++i) p.push_back(g.chance(0.05) ? NAN_ : g.range(-m / 2, m)); return p;
    }
    static std::string pj(Pos const & p) { return arr(p); }
    static Vector3d arg(Pos const & p) { return Vector3d(dbl(p[0]), dbl(p[1]), dbl(p[2])); }
    static T make(Rng & g, int m, std::string & raw) {
        Pos a = pos(g, m, false), b = pos(g, m, false);
        if (!g.chance(0.1)) for (int i = 0; i < 3; ++i) if (a[i] > b[i] && a[i] != NAN_ && b[i] != NAN_) std::swap(a[i], b[i]);
        for (int i = 0; i < 3; ++i) { if (g.chance(0.1)) b[i] = a[i]; if (g.chance(0.02)) a[i] = NAN_; }
        auto put = [&] { J r('['); for (int i = 0; i < 3; ++i) r.raw("[" + std::to_string(a[i]) + "," + std::to_string(b[i]) + "]"); raw = r.done(); };
        int how = g.below(12);
        if (how == 0) { raw = "[[-1000,1000],[-1000,1000],[-1000,1000]]"; return Box3d::full(); }
        if (how == 1) { raw = "[[9999,9999],[0,0],[0,0]]"; return g.chance(0.5) ? Box3d() : Box3d::empty(); }
        if (how == 2) { b = a; put(); return Box3d(arg(a)); }
        if (how == 3) {
            int w[3]; for (int i = 0; i < 3; ++i) { if (a[i] == NAN_) a[i] = 0; w[i] = g.range(-1, m); }
            Box3d r(arg(a), dbl(w[0]), dbl(w[1]), dbl(w[2]));
            for (int i = 0; i < 3; ++i) { b[i] = a[i]; if (std::abs(a[i]) != INF) { b[i] = a[i] + w[i]; a[i] = a[i] - w[i]; } }
            put(); return r;
        }
        put();
        if (how < 6) return Box3d(arg(a), arg(b));
        return Box3d(Interval1d(dbl(a[0]), dbl(b[0])), Interval1d(dbl(a[1]), dbl(b[1])), Interval1d(dbl(a[2]), dbl(b[2])));
    }
    static T & dilate(T & v, Pos const & k) { if (k[0] == k[1] && k[1] == k[2]) return v.dilateBy(dbl(k[0])); return v.dilateBy(dbl(k[0]), dbl(k[1]), dbl(k[2])); }
    static T dilated(T const & v, Pos const & k) { if (k[0] == k[1] && k[1] == k[2]) return v.dilatedBy(dbl(k[0])); return v.dilatedBy(dbl(k[0]), dbl(k[1]), dbl(k[2])); }
    static T & erode(T & v, Pos const & k) { if (k[0] == k[1] && k[1] == k[2]) return v.erodeBy(dbl(k[0])); return v.erodeBy(dbl(k[0]), dbl(k[1]), dbl(k[2])); }
    static T eroded(T const & v, Pos const & k) { if (k[0] == k[1] && k[1] == k[2]) return v.erodedBy(dbl(k[0])); return v.erodedBy(dbl(k[0]), dbl(k[1]), dbl(k[2])); }
};

template <class D> struct Hist {
    typedef typename D::T T;
    T v[3];
    J ev{'['};
    void mut(J e, int o, T const & cp, T const & before, T const & other, T const & otherBefore, int oi) {
        e.key("post", D::post(v[o])).key("cp", D::post(cp)).key("empty", v[o].isEmpty()).key("cpempty", cp.isEmpty()).key("full", D::full(v[o]));
        // the copying form must not touch its operands, and the in-place form only its target
        e.key("kept", oi == o || oi < 0 || D::post(other) == D::post(otherBefore));
        (void)before;
        D::sizes(e, v[o]);
        ev.raw(e.done());
    }
    void set(int o, T const & x, std::string const & raw) { v[o] = x; J e('{'); e.skey("op", "set").key("o", o + 1).key("r", raw); mut(e, o, x, x, x, x, -1); }
    void clip(int o, int p) { J e('{'); e.skey("op", "clip").key("o", o + 1).key("p", p + 1); T b = v[o], q = v[p]; T cp = T(v[o].clippedTo(v[p])); bool k = D::post(b) == D::post(v[o]); v[o].clipTo(v[p]); if (!k) v[o] = T(); mut(e, o, cp, b, v[p], q, p); }
    void exp(int o, int p) { J e('{'); e.skey("op", "exp").key("o", o + 1).key("p", p + 1); T b = v[o], q = v[p]; T cp = T(v[o].expandedTo(v[p])); v[o].expandTo(v[p]); mut(e, o, cp, b, v[p], q, p); }
    void clipp(int o, typename D::Pos x) { J e('{'); e.skey("op", "clipp").key("o", o + 1).key("x", D::pj(x)); T b = v[o]; T cp = T(v[o].clippedTo(D::arg(x))); v[o].clipTo(D::arg(x)); mut(e, o, cp, b, b, b, -1); }
    void expp(int o, typename D::Pos x) { J e('{'); e.skey("op", "expp").key("o", o + 1).key("x", D::pj(x)); T b = v[o]; T cp = T(v[o].expandedTo(D::arg(x))); v[o].expandTo(D::arg(x)); mut(e, o, cp, b, b, b, -1); }
    void dil(int o, typename D::Pos k) { J e('{'); e.skey("op", "dil").key("o", o + 1).key("k", D::pj(k)); T b = v[o]; T cp = D::dilated(v[o], k); D::dilate(v[o], k); mut(e, o, cp, b, b, b, -1); }
    void ero(int o, typename D::Pos k) { J e('{'); e.skey("op", "ero").key("o", o + 1).key("k", D::pj(k)); T b = v[o]; T cp = D::eroded(v[o], k); D::erode(v[o], k); mut(e, o, cp, b, b, b, -1); }
    void asg(int o, int p) { J e('{'); e.skey("op", "asg").key("o", o + 1).key("p", p + 1); T q = v[p]; v[o] = v[p]; T cp(v[p]); mut(e, o, cp, q, v[p], q, p); }
    void q(int o, int p) {
        ev.raw(J('{').skey("op", "q").key("o", o + 1).key("p", p + 1).key("ans", rel(v[o].relate(v[p]), v[o].contains(v[p]), v[o].intersects(v[p]), v[o].isDisjointFrom(v[p]), v[o].isWithin(v[p]), v[o] == v[p], v[o] != v[p])).done());
    }
    void qp(int o, typename D::Pos x) {
        auto a = D::arg(x);
        ev.raw(J('{').skey("op", "qp").key("o", o + 1).key("x", D::pj(x)).key("ans", rel(v[o].relate(a), v[o].contains(a), v[o].intersects(a), v[o].isDisjointFrom(a), v[o].isWithin(a), v[o] == a, v[o] != a)).done());
    }
    int mag() {  // largest finite end point, to keep values in the table
        int m = 0; std::string s = D::post(v[0]) + D::post(v[1]) + D::post(v[2]); int c = 0; bool in = false;
        for (char ch : s + ",") { if (ch >= '0' && ch <= '9') { c = in ? c * 10 + ch - '0' : ch - '0'; in = true; } else { if (in && c < 900) m = std::max(m, c); in = false; } }
        return m;
    }
};
template <class D> static void histories(std::ostream & os, char const * kind, Rng & g, int n, int len) {
    for (int i = 0; i < n; ++i) {
        Hist<D> h; int m = g.range(2, 9);
        double units[] = {0.25, 1.0, 3 * std::ldexp(1, -6), std::ldexp(1, -40), std::ldexp(1, 60), -0.0};
        UNIT = units[g.below(5)];
        for (int o = 0; o < 3; ++o) { std::string raw; auto x = D::make(g, m, raw); h.set(o, x, raw); }
        for (int s = 0; s < len; ++s) {
            int o = g.below(3), p = g.below(3);
            switch (g.below(13)) {
                case 0: { std::string raw; auto x = D::make(g, m, raw); h.set(o, x, raw); break; }
                case 1: h.clip(o, p); break;
                case 2: case 3: h.exp(o, p); break;
                case 4: if (g.chance(0.3)) h.clipp(o, D::pos(g, m, true)); break;
                case 5: h.expp(o, D::pos(g, m, true)); break;
                case 6: if (h.mag() < 200) h.dil(o, D::dil(g, m)); break;
                case 7: if (h.mag() < 200) h.ero(o, D::dil(g, m)); break;
                case 8: if (g.chance(0.3)) h.asg(o, p); break;
                case 9: case 10: h.q(o, p); break;
                default: h.qp(o, D::pos(g, m, true)); break;
            }
        }
        os << J('{').skey("kind", kind).key("ev", h.ev.done()).done() << "\n";
    }
}
// every pair of intervals over a small grid with infinities, reversed and missing end points
template <class IV, class SC> static void pairs(std::ostream & os, int m) {
    typedef One<IV, SC> D;
    std::vector<int> ps{-INF}; for (int k = -m; k <= m; ++k) ps.push_back(k); ps.push_back(INF);
    std::vector<std::pair<int, int>> ivs;
    for (int a : ps) for (int b : ps) if (a <= b) ivs.push_back({a, b});
    ivs.push_back({NAN_, NAN_}); ivs.push_back({1, 0}); ivs.push_back({0, NAN_}); ivs.push_back({NAN_, 0}); ivs.push_back({INF, -INF});
    UNIT = 1.0;
    auto load = [&](Hist<D> & h, int o, std::pair<int, int> x) { h.set(o, IV(D::sc(x.first), D::sc(x.second)), "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"); };
    for (auto x : ivs) {
        Hist<D> h;
        for (auto y : ivs) {
            load(h, 0, x); load(h, 1, y); h.q(0, 1); h.clip(0, 1); load(h, 0, x); h.exp(0, 1);
        }
        load(h, 0, x);
        std::vector<int> sp = ps; sp.push_back(NAN_);
        for (int p : sp) { h.qp(0, p); h.clipp(0, p); load(h, 0, x); h.expp(0, p); load(h, 0, x); if (std::abs(p) != INF) { h.dil(0, p); load(h, 0, x); h.ero(0, p); load(h, 0, x); } }
        os << J('{').skey("kind", "iv").key("ev", h.ev.done()).done() << "\n";
    }
}
int main(int, char ** v) {
    std::ofstream os(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]), len = atoi(v[4]), grid = atoi(v[5]);
    pairs<Interval1d, double>(os, grid);
    pairs<AngleInterval, Angle>(os, grid);
    histories<One<Interval1d, double>>(os, "iv", g, n, len);
    histories<One<AngleInterval, Angle>>(os, "iv", g, n, len);
    histories<Three>(os, "b3", g, n, len);
    return 0;
}
