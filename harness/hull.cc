// Convex hulls of point sets in many orders (spec/TraceHull.tla).
#include "sphere.h"
static std::ofstream os;
typedef std::vector<U> Pts;
static U mk(double x, double y, double z) { return U(x, y, z); }
static std::string idx(Pts const & pool, std::vector<U> const & v) { J j('['); for (auto & u : v) { int k = 0; for (size_t i = 0; i < pool.size(); ++i) if (pool[i] == u) { k = i + 1; break; } j.num(k); } return j.done(); }
static std::string seqJ(std::vector<int> const & s) { J j('['); for (int k : s) j.num(k + 1); return j.done(); }
static void shuffle(Rng & g, std::vector<int> & s) { for (size_t i = s.size(); i > 1; --i) std::swap(s[i - 1], s[g.below(i)]); }
// the set, in several orders and with repetitions; ex is how the points are written down
static void record(Rng & g, char const * op, Pts const & pool, std::string const & ex, std::vector<std::vector<int>> seqs) {
    J runs('['), others('['), bad('['); std::unique_ptr<ConvexPolygon> first;
    for (auto & s : seqs) {
        Pts p; for (int k : s) p.push_back(pool[k]);
        bool ok = false, doc = true; std::vector<U> v; bool in = true, eq = true;
        try {
            ConvexPolygon c = g.chance(0.5) ? ConvexPolygon(p) : ConvexPolygon::convexHull(p); ok = true; v = c.getVertices();
            for (auto & u : p) if (!c.contains(u)) in = false;
            if (!first) first.reset(new ConvexPolygon(c)); else if (!(c == *first) || c != *first || !(*first == c)) eq = false;
            if (!(c == c) || !(c == ConvexPolygon(c.getVertices()))) eq = false;
        } catch (std::invalid_argument const &) {} catch (std::exception const &) { doc = false; }
        runs.raw(J('{').key("seq", seqJ(s)).key("ok", ok).key("doc", doc).key("v", idx(pool, v)).key("in", in).key("eq", eq).done());
    }
    if (first) for (int k = 0; k < 3; ++k) { // polygons of some of the points
        Pts p; for (auto & u : pool) if (g.chance(0.8)) p.push_back(u);
        try { ConvexPolygon c(p); bool e = c == *first; if (e == (c != *first) || e != (*first == c)) bad.str("equality"); others.raw(J('{').key("v", idx(pool, c.getVertices())).key("eq", e).done()); } catch (std::exception const &) {}
    }
    os << J('{').skey("op", op).key("pts", ex).key("runs", runs.done()).key("others", others.done()).key("bad", bad.done()).done() << "\n";
}
static std::vector<std::vector<int>> orders(Rng & g, int n, int m) {
    std::vector<std::vector<int>> r;
    for (int k = 0; k < m; ++k) { std::vector<int> s; for (int i = 0; i < n; ++i) s.push_back(i); if (k) { for (int i = g.below(4); i > 0; --i) s.push_back(g.below(n)); shuffle(g, s); } r.push_back(s); }
    return r;
}
static void grid(Rng & g, int n) {
    std::vector<int> all; std::vector<U> u; std::vector<std::string> x;
    for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int c = -1; c <= 1; ++c) if (a || b || c) { u.push_back(mk(a, b, c)); x.push_back("[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]"); }
    for (int i = 0; i < n; ++i) {
        int k = i % 5 == 0 ? g.range(1, 3) : g.range(3, 8); std::vector<int> s; for (int j = 0; j < 26; ++j) s.push_back(j); shuffle(g, s);
        if (g.chance(0.6)) { // prefer a half space, or a plane and little else
            int h = g.below(26); int c = g.below(3); bool plane = g.chance(0.5);
            std::stable_sort(s.begin(), s.end(), [&](int p, int q) { auto key = [&](int t) { return plane ? u[t](c) != 0 : u[t].dot(u[h]) < 0.1; }; return key(p) < key(q); });
            if (plane && g.chance(0.7) && k > 1) { std::swap(s[k - 1], s[25]); } else if (g.chance(0.2)) std::swap(s[k - 1], s[25]);
        }
        s.resize(k); shuffle(g, s); Pts pool; J ex('['); for (int j : s) { pool.push_back(u[j]); ex.raw(x[j]); }
        record(g, "grid", pool, ex.done(), orders(g, k, k <= 3 ? 3 : 4));
    }
}
// every order of the set
static void perms(Rng & g, int n) {
    for (int i = 0; i < n; ++i) {
        std::vector<int> pick; while (pick.size() < 5) { int k = g.below(26); if (std::find(pick.begin(), pick.end(), k) == pick.end()) pick.push_back(k); }
        Pts pool; J ex('['); for (int k : pick) { if (k >= 13) ++k; int a = k / 9 - 1, b = k / 3 % 3 - 1, c = k % 3 - 1; pool.push_back(mk(a, b, c)); ex.raw("[" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "]"); }
        std::vector<std::vector<int>> r; std::vector<int> s = {0, 1, 2, 3, 4}; do r.push_back(s); while (std::next_permutation(s.begin(), s.end())); record(g, "grid", pool, ex.done(), r);
    }
}
static U ulps(Rng & g, U const & c) { double d[3] = {c.x(), c.y(), c.z()}; for (double & x : d) for (int k = g.below(3); k > 0; --k) x = std::nextafter(x, g.chance(0.5) ? 2 : -2); return U::fromNormalized(d[0], d[1], d[2]); }
static void real(Rng & g, int n) {
    for (int i = 0; i < n; ++i) {
        Pts p; int k = g.chance(0.3) ? g.range(8, 24) : g.range(1, 8); U c(randVec(g)); double r = std::pow(10.0, g.real(-16, 0.5));
        switch (i % 8) {
            case 0: for (int j = 0; j < k; ++j) p.push_back(near(g, c, r)); break;
            case 1: k = std::min(k, 9); for (int j = 0; j < k; ++j) p.push_back(U(randVec(g))); break;
            case 2: { k = std::min(k, 9); int a = g.below(3); bool half = g.chance(0.7); double z = g.uni() * 6.3; for (int j = 0; j < k; ++j) { double t = z + (half ? g.real(0, 3.1) : g.real(0, 6.3)), q[3]; q[a] = 0; q[(a + 1) % 3] = std::cos(t); q[(a + 2) % 3] = std::sin(t); p.push_back(mk(q[0], q[1], q[2])); } // exactly coplanar
                for (int j = g.below(3); j > 0; --j) p.push_back(U(randVec(g))); if (g.chance(0.3)) p.push_back(-p[0]); break; }
            case 3: { U q = U::orthogonalTo(c); for (int j = 0; j < k; ++j) { double t = g.real(0, g.chance(0.5) ? 3.14 : r); p.push_back(U(std::cos(t) * Vector3d(c) + std::sin(t) * Vector3d(q))); } if (g.chance(0.5)) p.push_back(near(g, c, r)); break; } // nearly coplanar
            case 4: for (int j = 0; j < k; ++j) p.push_back(ulps(g, c)); if (g.chance(0.3)) p.push_back(near(g, c, 0.1)); break;
            case 5: { k = std::min(k, 8); for (int j = 0; j < k; ++j) p.push_back(near(g, c, g.chance(0.5) ? 1 : r)); Vector3d m; for (auto & u : p) m += Vector3d(u) * g.uni(); if (m.getSquaredNorm() > 0) p.push_back(U(-m)); if (g.chance(0.3)) p.back() = ulps(g, -p[0]); break; } // opposite to something inside
            case 6: { U q = U::orthogonalTo(c), w(c.cross(q)); double d = g.chance(0.5) ? 1e-15 : std::pow(10.0, g.real(-17, -1)); for (int j = 0; j < std::min(k, 9); ++j) { double t = g.real(0, 6.3); p.push_back(U(std::cos(t) * Vector3d(q) + std::sin(t) * Vector3d(w) + d * Vector3d(c))); } break; } // around a great circle
            default: { double t = r < 1.5 ? r : 1.5; U q = U::orthogonalTo(c); for (int j = 0; j < k; ++j) p.push_back(U(Vector3d(c) + std::tan(t) * Vector3d(q.rotatedAround(c, Angle(2 * M_PI * (j + 0.2 * g.uni()) / k))))); } // on a circle
        }
        Pts pool; for (auto & u : p) { bool dup = false; for (auto & q : pool) dup = dup || q == u; if (!dup) pool.push_back(u); }
        J ex('['); for (auto & u : pool) ex.raw(bigVec(u)); record(g, "real", pool, ex.done(), orders(g, pool.size(), 4));
    }
}
int main(int, char ** v) {
    std::string mode = v[1]; os.open(v[2]); Rng g(atoll(v[3])); int n = atoi(v[4]);
    if (mode == "grid") { try { ConvexPolygon(Pts{}); abort(); } catch (std::invalid_argument const &) {} grid(g, n); perms(g, n / 50); } else real(g, n);
    return 0;
}
