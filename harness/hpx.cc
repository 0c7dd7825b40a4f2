// Regions, witness points and their exact descriptions for harness/hpx.py.
#include "sphere.h"
#include <cinttypes>
static double extent(Region const & r, double a) {
    if (auto b = dynamic_cast<Box const *>(&r)) { if (b->isEmpty()) return a; return std::max(a, std::min(1.5, std::max(b->getLat().getSize().asRadians(), b->getLon().getSize().asRadians() * (b->getLat().contains(Angle(0)) ? 1 : std::max(std::cos(b->getLat().getA().asRadians()), std::cos(b->getLat().getB().asRadians())))))); }
    if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) return std::max(a, std::min(1.5, p->getBoundingCircle().getOpeningAngle().asRadians()));
    double t = r.getBoundingCircle().getOpeningAngle().asRadians(); if (t > 0) return std::max(a, std::min(1.5, t));
    return a;
}
static std::string rawJ(U const & u) { char b[100]; uint64_t w[3]; double c[3] = {u.x(), u.y(), u.z()}; memcpy(w, c, 24); snprintf(b, 100, "\"%016" PRIx64 "%016" PRIx64 "%016" PRIx64 "\"", w[0], w[1], w[2]); return b; }
int main(int, char ** v) {
    std::ofstream os(v[1]); Rng g(atoll(v[2])); int n = atoi(v[3]);
    for (int i = 0; i < n; ++i) {
        double a = g.chance(0.6) ? size(g, 1e-8) : std::pow(10, g.real(-8, 0.3)); Shape s = genSimple(g, g.below(4), place(g), std::min(a, 1.6));
        a = std::min(1.5, extent(*s.r, a));
        int l = std::max(0, std::min(17, (int)std::floor(std::log2(1 / a) + g.real(0.3, 3.2)) - (g.chance(0.3) ? g.range(0, 6) : 0)));
        if (l > 7 && a > 0.3) l = 7;
        std::vector<U> w = witnesses(g, {s.r.get()}, 20, a); std::string hex; for (auto c : s.r->encode()) { char b[3]; snprintf(b, 3, "%02x", c); hex += b; }
        // points a pixel away from the boundary, too
        size_t m = w.size(); for (size_t j = 0; j < m && j < 12; ++j) w.push_back(near(g, w[j], g.real(0, 1.5) / (1 << l)));
        J p('['), r('['); for (auto const & u : w) { p.raw(ptJ(u)); r.raw(rawJ(u)); }
        os << J('{').key("l", l).key("r", s.d).skey("hex", hex).key("p", p.done()).key("raw", r.done()).done() << "\n";
    }
}
