// Records histories of circle operations (spec/TraceCircle.tla).
#include "sphere.h"
static std::ofstream os;
static std::string ptsJ(std::vector<U> const & w) { J l('['); for (auto const & u : w) l.raw(ptJ(u)); return l.done(); }
// what a circle says about itself
static std::string stateJ(Circle const & c) {
    double s = c.getSquaredChordLength(); LD o = c.getOpeningAngle().asRadians(); bool nan = !(s == s) || !(o == o); if (nan) o = 0;
    return J('{').skey("k", "circle").key("c", ptJ(c.getCenter())).key("s", nan ? "[-1,1]" : bigL(s < 0 ? -1 : s, 150)).key("o", s < 0 || nan ? dirJ(0) : s >= 4 ? dirJ(PIL) : dirJ(o)).key("h", bigL(nan ? 0 : sinl(o / 2), 75)).key("ang", bigL(o, 60)).key("nan", nan)
        .key("empty", c.isEmpty()).key("full", c.isFull()).key("area", bigL(c.getArea(), 150)).done();
}
static bool eqn(double a, double b) { return a == b || (a != a && b != b); }
static bool same(Circle const & a, Circle const & b) { return a.getCenter() == b.getCenter() && eqn(a.getSquaredChordLength(), b.getSquaredChordLength()) && eqn(a.getOpeningAngle().asRadians(), b.getOpeningAngle().asRadians()); }
static double angle(Rng & g, double a) { switch (g.below(8)) { case 0: return 0; case 1: return M_PI; case 2: return M_PI - a; case 3: return g.real(0, 3.2); case 4: return M_PI / 2; default: return a * g.real(0.01, 2); } }
static Circle any(Rng & g, U const & c, double a) {
    switch (g.below(14)) {
        case 0: return Circle::empty(); case 1: return Circle::full(); case 2: return Circle(c, Angle(-g.uni())); case 3: return Circle(c, g.chance(0.5) ? -1.0 : std::nan("")); case 4: return Circle(c, Angle(g.real(3.1, 4))); case 5: return Circle(c); case 6: return Circle(c, g.chance(0.3) ? g.real(3.9, 4.1) : g.real(0, 4)); case 7: return Circle(c, a * a);
        default: return Circle(c, Angle(angle(g, a)));
    }
}
static void history(Rng & g, int steps) {
    U c = place(g); double a = size(g, 1e-7); std::vector<Circle> o; for (int i = 0; i < 3; ++i) { U d = g.chance(0.1) ? -c : g.chance(0.15) ? c : near(g, c, std::min(3.14, a * g.real(0, 3))); if (g.chance(0.1)) d = near(g, -c, a); o.push_back(any(g, d, a)); }
    for (int st = 0; st < steps; ++st) {
        int i = g.below(3), j = g.below(3); Circle x = o[i], y = o[j], z = x; std::string op; J e('{'); bool ok = true; std::vector<U> pts; U p = g.chance(0.3) ? o[j].getCenter() : near(g, x.getCenter(), std::min(3.14, a * g.real(0, 3))); if (g.chance(0.05)) p = -x.getCenter(); if (g.chance(0.1)) p = special(g);
        double r = 0; bool point = false;
        if (i != j && !x.isEmpty() && !x.isFull() && g.chance(0.12)) { // another circle that (almost) touches this one from inside or outside
            double ro = x.getOpeningAngle().asRadians(), d = g.chance(0.3) ? g.real(0, 3) : std::min(3.0, ro * g.real(0, 2)), dl = g.chance(0.2) ? 0 : std::pow(10, -g.real(5, 16)) * (g.chance(0.5) ? 1 : -1); U q = step(x.getCenter(), tangent(g, x.getCenter()), d);
            y = Circle(q, Angle(std::max(0.0, (g.chance(0.5) ? ro + d : std::fabs(ro - d)) + dl))); o[j] = y;
        }
        switch (g.below(9)) {
            case 0: op = "clip"; ok = same(x.clippedTo(y), z.clipTo(y)); if (i == j) { Circle t = x; t.clipTo(t); ok = ok && t == z; } break;
            case 1: op = "expand"; ok = same(x.expandedTo(y), z.expandTo(y)); break;
            case 2: op = "expand"; point = true; y = Circle(p); ok = same(x.expandedTo(p), z.expandTo(p)) && z.contains(p); break;
            case 3: if (g.chance(0.7)) { op = "query"; break; } op = "clip"; point = true; y = Circle(p); ok = same(x.clippedTo(p), z.clipTo(p)) && z.isEmpty() != x.contains(p); break;
            case 4: case 5: { op = "dilate"; r = g.chance(0.15) ? 0 : angle(g, a) * (g.chance(0.5) ? 1 : -1); bool er = g.chance(0.5); ok = er ? same(x.erodedBy(Angle(-r)), z.erodeBy(Angle(-r))) : same(x.dilatedBy(Angle(r)), z.dilateBy(Angle(r))); break; }
            case 6: op = "comp"; ok = same(x.complemented(), z.complement()); break;
            case 7: op = "query"; break;
            default: op = "query"; break;
        }
        pts = witnesses(g, {&x, &y, &z}, 15, a); if (op == "dilate" && !x.isEmpty()) { // points on the way out
            U t = tangent(g, x.getCenter()); double o1 = x.getOpeningAngle().asRadians(); pts.push_back(step(x.getCenter(), t, std::min(M_PI, std::max(0.0, o1 + r) * 0.999)));
        }
        if (!x.isEmpty() && !y.isEmpty() && x.getCenter() != y.getCenter() && x.getCenter() != -y.getCenter()) { // the ends of both circles on the line of their centres
            auto line = [&](U const & u, U const & w, double ro) { Vector3d n = u.robustCross(w); if (n.getSquaredNorm() == 0) return; U t(n.cross(u)); pts.push_back(step(u, t, std::min(M_PI, ro))); pts.push_back(step(u, -t, std::min(M_PI, ro))); };
            line(x.getCenter(), y.getCenter(), x.getOpeningAngle().asRadians()); line(y.getCenter(), x.getCenter(), y.getOpeningAngle().asRadians());
        }
        // the operand is unharmed
        if (!point && !same(y, o[j])) ok = false;
        e.skey("op", op).key("x", stateJ(x)).key("y", stateJ(y)).key("z", stateJ(z)).key("ok", ok).key("r", bigL(r, 60)).key("p", ptsJ(pts));
        // points that the code itself puts into one of the operands of an expansion but not into the result
        J own('['); int k = 0; for (auto const & u : pts) { ++k; if (op == "expand" && (x.contains(u) || y.contains(u)) && !z.contains(u)) own.num(k); if (op == "clip" && x.contains(u) && y.contains(u) && !z.contains(u)) own.num(k);
            if (op == "dilate" && r > 0 && x.contains(u) && !z.contains(u)) own.num(k); } e.key("own", own.done());
        if (op == "query") {
            bool pc = x.contains(p); Relationship rp = x.relate(p), rr = x.relate(y);
            e.key("c", x.contains(y)).key("d", x.isDisjointFrom(y)).key("w", x.isWithin(y)).key("n", x.intersects(y)).key("eq", x == y).key("ne", x != y).key("rc", (rr & CONTAINS) != 0).key("rd", (rr & DISJOINT) != 0).key("rw", (rr & WITHIN) != 0)
             .key("pp", ptJ(p)).key("pc", pc).key("pok", x.isDisjointFrom(p) == !pc && x.intersects(p) == pc && x.isWithin(p) == x.isEmpty() && ((rp & CONTAINS) != 0) == pc && ((rp & DISJOINT) != 0) == !pc && ((rp & WITHIN) != 0) == x.isEmpty());
        }
        os << e.done() << "\n";
        o[i] = z;
    }
}
// the conversions between opening angle and chord
static void convert(Rng & g) {
    double a; switch (g.below(7)) { case 0: a = -g.uni(); break; case 1: a = 0; break; case 2: a = M_PI; break; case 3: a = g.real(3.1, 7); break; case 4: a = std::pow(10, -g.real(0, 15)); break; case 5: a = M_PI - std::pow(10, -g.real(0, 15)); break; default: a = g.real(0, M_PI); }
    double s = Circle::squaredChordLengthFor(Angle(a)); Angle b = Circle::openingAngleFor(s);
    os << J('{').skey("op", "conv").key("neg", a < 0).key("big", a >= M_PI).key("h", bigL(sinl((LD)a / 2), 75)).key("s", bigL(s < 0 ? -1 : s, 150)).key("hb", bigL(sinl((LD)b.asRadians() / 2), 75)).key("bneg", b.asRadians() < 0).done() << "\n";
}
int main(int argc, char ** argv) { os.open(argv[1]); Rng g(std::strtoull(argv[2], 0, 10)); int n = std::atoi(argv[3]); for (int i = 0; i < n; ++i) { history(g, 10); convert(g); } }
