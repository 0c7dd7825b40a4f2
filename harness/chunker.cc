// Records chunk lists, boxes and lookups (spec/TraceChunker.tla).
#include "sphere.h"
#include <map>
#include <set>
#include "lsst/sphgeom/Chunker.h"
static std::ofstream os;
static std::string a60(LD a) { return bigL(a, 60); }
static std::string boxJ(Box const & b) {
    bool e = b.isEmpty(); return J('{').key("e", e).key("full", !e && b.getLon().isFull()).key("a", a60(e ? 0 : b.getLon().getA().asRadians())).key("b", a60(e ? 0 : b.getLon().getB().asRadians()))
        .key("lo", a60(e ? 0 : b.getLat().getA().asRadians())).key("hi", a60(e ? 0 : b.getLat().getB().asRadians())).done();
}
struct Conf {
    int n, k; Chunker c; std::vector<std::vector<int>> ids; std::vector<int> nsc; int m = 0; std::set<int> all; bool ok = true; std::set<std::pair<int,int>> seen;
    // counts as the public interface shows them
    Conf(int n_, int k_) : n(n_), k(k_), c(n_, k_), ids(n_) {
        for (int id : c.getAllChunks()) { int s = c.getStripe(id); if (s < 0 || s >= n || !all.insert(id).second) { ok = false; continue; } ids[s].push_back(id); }
        for (auto & v : ids) if (v.empty()) ok = false; if (!ok) return;
        for (int t = 0; t < n * k; ++t) { Box b = c.getSubChunkBoundingBox(t, 0); int nc = (int)ids[t / k].size(), T = b.getLon().isFull() ? 1 : (int)std::lround(2 * M_PI / b.getLon().getSize().asRadians()); // the box is slightly wider than the cell
            if (T % nc && (T + 1) % nc == 0) ++T; if (T % nc) { int r = (int)std::lround((double)T / nc); T = r * nc; } nsc.push_back(T / nc); m = std::max(m, T / nc); }
    }
};
static void stripe(Rng & g, Conf & f, int s, int most) {
    int n = f.n, k = f.k, nc = (int)f.ids[s].size(); std::vector<int> ns(f.nsc.begin() + s * k, f.nsc.begin() + (s + 1) * k);
    J probe('['), subs('['), boxes('['), sb('['), width('[');
    auto pr = [&](int id) { bool v = f.c.valid(id); int st = f.c.getStripe(id); probe.raw(J('{').key("id", id).key("valid", v).key("stripe", v ? st : 0).key("chunk", v ? f.c.getChunk(id, st) : 0).done()); };
    for (int j = 0; j < std::min(2 * n, 8); ++j) { pr(2 * n * s + (2 * n <= 8 ? j : (int)g.below(2 * n))); } pr(2 * n * s + nc - 1); if (nc < 2 * n) pr(2 * n * s + nc); pr(2 * n * s); pr(2 * n * s + 2 * n - 1);
    std::vector<int> cs = {0, nc - 1}; if (nc > 2) cs.push_back(g.below(nc)); if (nc > 3 && most > 3) for (int j = 1; j < std::min(nc - 1, most); ++j) cs.push_back(j);
    for (int c : cs) { if (k <= 40) subs.raw(arr(f.c.getAllSubChunks(f.ids[s][c]))); boxes.raw(J('{').key("c", c).key("box", boxJ(f.c.getChunkBoundingBox(s, c))).done()); }
    for (int j = 0; j < 6; ++j) { int y = j == 0 ? 0 : j == 1 ? k - 1 : (int)g.below(k), T = nc * ns[y], x = g.chance(0.3) ? 0 : g.chance(0.3) ? T - 1 : (int)g.below(T); sb.raw(J('{').key("y", y).key("c", x).key("box", boxJ(f.c.getSubChunkBoundingBox(s * k + y, x))).done()); }
    auto wd = [&](int cells, int row, int rows) { LD h = PIL / rows, top = std::max(fabsl(row * h - PIL / 2), fabsl((row + 1) * h - PIL / 2));
        width.raw(J('{').key("one", cells == 1).key("sw", bigL(sinl(PIL / cells), 60)).key("c", bigL(cosl(top), 60)).key("h", bigL(sinl(h / 2), 60)).key("pole", top > PIL / 2 - 5e-6L).key("sw1", bigL(cells + 1 == 2 ? 1 : sinl(PIL / (cells + 1)), 60)).done()); };
    if (n * k <= 1500) wd(nc, s, n);
    os << J('{').skey("op", "stripe").key("n", n).key("k", k).key("s", s).key("ids", arr(f.ids[s])).key("nsc", arr(ns)).key("m", f.m).key("probe", probe.done()).key("subs", subs.done()).key("boxes", boxes.done()).key("sboxes", sb.done()).key("width", width.done()).done() << "\n";
}
static void flag(std::string const & what, bool ok) { os << J('{').skey("op", "flag").skey("what", what).key("ok", ok).done() << "\n"; }
static void refuse(int n, int k) {
    bool thrown = false, other = false; try { Chunker c(n, k); } catch (std::runtime_error const &) { thrown = true; } catch (...) { other = true; }
    os << J('{').skey("op", "refuse").key("n", n).key("k", k).key("thrown", thrown).key("other", other).done() << "\n";
}
static void config(Rng & g, int n, int k, int most, int stripes) {
    Conf f(n, k); flag("chunk list", f.ok); if (!f.ok) return;
    bool v = true; for (int j = 1; j < 4 * n + 4; ++j) if (f.c.valid(-j)) v = false; for (int j = 0; j < 4 * n && j < 100; ++j) if (f.c.valid(2 * n * n + j)) v = false;
    for (int x : {-2147483647 - 1, -2147483647, 2147483647, 1000000000, -1000000000}) if (f.c.valid(x) != (f.all.count(x) != 0)) v = false; flag("valid outside", v);
    flag("numbers", f.c.getNumStripes() == n && f.c.getNumSubStripesPerStripe() == k && f.c == Chunker(n, k) && !(f.c != Chunker(n, k)) && f.c != Chunker(n + 1, k) && !(f.c == Chunker(n, k + 1)));
    std::vector<int> ss; if (stripes >= n) for (int s = 0; s < n; ++s) ss.push_back(s); else { ss = {0, n - 1, n / 2, (n - 1) / 2}; while ((int)ss.size() < stripes) ss.push_back(g.below(n)); }
    for (int s : ss) stripe(g, f, s, most);
}
static void lookup(Rng & g, Conf & f) {
    U c = place(g); int n = f.n, k = f.k; double a = size(g, 1e-5);
    if (g.chance(0.3)) a = std::min(1.5, a * 3 * M_PI / n); 
    if (g.chance(0.25)) { int t = g.below(n * k), T = f.nsc[t] * (int)f.ids[t / k].size(); c = U(NormalizedAngle(2 * M_PI * (g.below(T + 1)) / T + (g.chance(0.5) ? 0 : 1e-13)), Angle(std::max(-M_PI / 2, std::min(M_PI / 2, M_PI * (t + g.below(2)) / (n * k) - M_PI / 2)))); }
    Shape s; std::unique_ptr<Region> r; std::vector<U> extra;
    if (g.chance(0.12)) { int st = g.below(n), ch = g.below(f.ids[st].size()); Box b = f.c.getChunkBoundingBox(st, ch); if (g.chance(0.5)) b.dilateBy(Angle(g.chance(0.5) ? 1e-9 : a)); else if (g.chance(0.5)) b.erodeBy(Angle(1e-9), Angle(1e-9)); s = {std::make_shared<Box>(b), describe(b)}; }
    else if (g.chance(0.06)) { s = g.chance(0.3) ? Shape{std::make_shared<Circle>(Circle::empty()), describe(Circle::empty())} : g.chance(0.5) ? Shape{std::make_shared<Box>(), describe(Box())} : Shape{std::make_shared<Ellipse>(), noneJ()}; }
    else if (g.chance(0.1)) s = mkCircle(c, 0);
    else s = genShape(g, c, a, g.chance(0.2) ? 1 : 0);
    std::vector<int> ch = f.c.getChunksIntersecting(*s.r); std::vector<SubChunks> sc = f.c.getSubChunksIntersecting(*s.r);
    bool valid = true; long total = 0; std::vector<std::pair<int, std::vector<int>>> got;
    for (int id : ch) if (!f.all.count(id) || !f.c.valid(id)) valid = false;
    for (auto & x : sc) { if (!f.all.count(x.chunkId)) { valid = false; continue; } std::set<int> o; for (int id : f.c.getAllSubChunks(x.chunkId)) o.insert(id); for (int id : x.subChunkIds) if (!o.count(id)) valid = false; total += x.subChunkIds.size(); }
    if (total > 3000 || ch.size() > 600) { if (g.chance(0.9)) return; }
    J subs('['); for (auto & x : sc) subs.raw(J('{').key("id", x.chunkId).key("ids", arr(x.subChunkIds)).done());
    std::vector<U> w = witnesses(g, {s.r.get()}, 14, a); J pts('[');
    for (auto & u : w) {
        LV v = norm(lv(u)); LD lat = atan2l(v.z, hypotl(v.x, v.y)), lon = atan2l(v.y, v.x); if (lon < 0) lon += 2 * PIL;
        LD y = (lat + PIL / 2) * n * k / PIL; int t = std::min(n * k - 1, std::max(0, (int)floorl(y))); int st = t / k, nc = (int)f.ids[st].size(), T = nc * f.nsc[t]; LD x = lon * T / (2 * PIL); int j = std::min(T - 1, (int)floorl(x));
        pts.raw(J('{').key("v", ptJ(u)).key("lon", a60(lon)).key("lat", a60(lat)).key("s", st).key("c", j / f.nsc[t]).key("nc", nc).key("t", t).key("j", j).key("nsc", f.nsc[t]).key("own", s.r->contains(u)).done());
    }
    J gb('['); if (valid) { // boxes of what was reported
        for (int q = 0; q < 6 && !ch.empty(); ++q) { int id = ch[g.below(ch.size())]; int st = f.c.getStripe(id); gb.raw(boxJ(f.c.getChunkBoundingBox(st, f.c.getChunk(id, st)))); }
        for (int q = 0; q < 8 && !sc.empty(); ++q) { auto & x = sc[g.below(sc.size())]; if (x.subChunkIds.empty()) continue; int id = x.subChunkIds[g.below(x.subChunkIds.size())]; int st = f.c.getStripe(x.chunkId), cc = f.c.getChunk(x.chunkId, st), t = st * k + id / f.m; gb.raw(boxJ(f.c.getSubChunkBoundingBox(t, cc * f.nsc[t] + id % f.m))); }
    }
    os << J('{').skey("op", "lookup").key("n", n).key("k", k).key("m", f.m).key("r", s.d).key("chunks", arr(ch)).key("subs", subs.done()).key("valid", valid).key("p", pts.done()).key("bb", boxJ(s.r->getBoundingBox())).key("got", gb.done()).done() << "\n";
}
int main(int, char ** v) {
    std::string mode = v[1]; os.open(v[2]); Rng g(atoll(v[3])); int n = atoi(v[4]); bool deep = atoi(v[5]);
    if (mode == "conf") {
        for (int i = 1; i <= n; ++i) for (int k : {1, 2, 3, 7}) config(g, i, k, 40, 1000);
        for (int i = 0; i < n; ++i) config(g, g.range(1, 60), g.range(1, 25), 3, 8);
        config(g, 85, 12, 3, 12); config(g, 340, 3, 3, 10); config(g, 1, 3000, 3, 1); config(g, 180, 60, 3, 6);
        if (deep) { config(g, 2000, 2, 3, 40); config(g, 1000, 300, 3, 20); config(g, 3, 8000, 3, 3); for (int i = n; i < 40; ++i) for (int k : {1, 4}) config(g, i, k, 10, 1000); }
        for (int a : {0, -1, 1, 2, -5, 180, 648000, 648001, 65536, 92682, 46341, 47000, 32767, 32768, 100000, 2147483647, -2147483647 - 1}) for (int b : {0, -1, 1, 3, 7, 3600, 9000, 46341, 47721858, 65536, 65537, 324000, 648000, 2147483647, -2147483647 - 1}) { if (!deep && a > 0 && b > 0 && (long)a * b <= 648000 && (long)a * b > 100000 && !g.chance(0.25)) continue; refuse(a, b); }
    } else {
        std::map<std::pair<int, int>, std::unique_ptr<Conf>> m; static int const cs[][2] = {{1, 1}, {1, 4}, {2, 1}, {2, 3}, {3, 2}, {4, 1}, {5, 3}, {6, 4}, {9, 5}, {12, 2}, {17, 3}, {20, 10}, {31, 1}, {40, 4}};
        for (int i = 0; i < n; ++i) { int q = g.below(14); auto & p = m[{cs[q][0], cs[q][1]}]; if (!p) p.reset(new Conf(cs[q][0], cs[q][1])); if (!p->ok) { flag("chunk list", false); continue; } lookup(g, *p); }
    }
    return 0;
}
