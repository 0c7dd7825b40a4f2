// Records encodings and decodings of regions (spec/TraceCodec.tla).
#include "sphere.h"
#include <typeinfo>
#include "lsst/sphgeom/codec.h"
typedef std::vector<uint8_t> Bytes;
static std::ofstream os;
static void put(J & l, double d) { uint64_t u; std::memcpy(&u, &d, 8); for (int k = 0; k < 8; ++k) l.num((u >> (8 * k)) & 255); }
static void put(J & l, U const & v) { put(l, v.x()); put(l, v.y()); put(l, v.z()); }
// what the region says about itself, as the documented fields
static std::string tree(Region const & r) {
    J l('['); int t = 0;
    if (auto p = dynamic_cast<Box const *>(&r)) { t = 'b'; put(l, p->getLon().getA().asRadians()); put(l, p->getLon().getB().asRadians()); put(l, p->getLat().getA().asRadians()); put(l, p->getLat().getB().asRadians()); }
    else if (auto p = dynamic_cast<Circle const *>(&r)) { t = 'c'; put(l, p->getCenter()); put(l, p->getSquaredChordLength()); put(l, p->getOpeningAngle().asRadians()); }
    else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) { t = 'p'; for (auto & v : p->getVertices()) put(l, v); }
    else if (auto p = dynamic_cast<Ellipse const *>(&r)) { t = 'e'; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) put(l, p->getTransformMatrix()(i, j)); 
        auto b = r.encode(); for (size_t k = 73; k < 89 && k < b.size(); ++k) l.num(b[k]); /* alpha and beta are stored less pi/2, and the tangents are not exposed; see tangents() */ put(l, p->getGamma().asRadians()); for (size_t k = 97; k < b.size(); ++k) l.num(b[k]); }
    else { auto q = dynamic_cast<CompoundRegion const *>(&r); return J('{').key("t", dynamic_cast<UnionRegion const *>(&r) ? (int)'u' : (int)'i').key("l", tree(q->getOperand(0))).key("r", tree(q->getOperand(1))).done(); }
    return J('{').key("t", t).key("b", l.done()).done();
}
static bool near(double x, double y) { return x == y || (x != x && y != y) || std::fabs(x - y) <= 1e-6 * std::fabs(y) || (std::fabs(x) > 1e12 && std::fabs(y) > 1e12); }
static bool tangents(Region const & r) {
    auto p = dynamic_cast<Ellipse const *>(&r); if (!p) return true; auto b = r.encode(); if (b.size() != 113) return false; double f[5]; std::memcpy(f, &b[73], 40); double x = p->getAlpha().asRadians(), y = p->getBeta().asRadians();
    if (!(std::fabs(f[0] + M_PI_2 - x) <= 1e-15 || f[0] != f[0]) || !(std::fabs(f[1] + M_PI_2 - y) <= 1e-15 || f[1] != f[1])) return false;
    return p->isEmpty() || p->isFull() || (near(f[3], std::fabs(std::tan(f[0]))) && near(f[4], std::fabs(std::tan(f[1]))));
}
static Shape gen(Rng & g, int depth) {
    if (depth == 0 && g.chance(0.2)) switch (g.below(8)) {
        case 0: return {std::make_shared<Box>(), ""}; case 1: return {std::make_shared<Box>(Box::full()), ""}; case 2: return {std::make_shared<Circle>(), ""}; case 3: return {std::make_shared<Circle>(Circle::full()), ""};
        case 4: return {std::make_shared<Ellipse>(), ""}; case 5: return {std::make_shared<Ellipse>(Ellipse::full()), ""}; case 6: return {std::make_shared<Circle>(place(g), std::nan("")), ""}; default: return {std::make_shared<Box>(Box::allLongitudes(), AngleInterval(Angle(-1), Angle(g.uni()))), ""}; }
    return genShape(g, place(g), size(g), depth);
}
static Bytes nested(Rng & g, int n, Region const & core) { Bytes b = core.encode(); for (int i = 0; i < n; ++i) { Bytes c, x = Circle(place(g), Angle(g.uni())).encode(); c.push_back(g.chance(0.5) ? 'u' : 'i'); bool left = g.chance(0.5); auto & l = left ? b : x; auto & r = left ? x : b; for (auto * y : {&l, &r}) { for (int k = 0; k < 8; ++k) c.push_back((uint64_t)y->size() >> (8 * k)); c.insert(c.end(), y->begin(), y->end()); } b = c; } return b; }
// exercise a decoded region
static void use(Region const & r, Rng & g, J & bad) {
    volatile bool b = false; Circle k(place(g), Angle(0.3)); Box x = Box::fromRadians(0.1, 0.2, 0.3, 0.4); ConvexPolygon t(U::X(), U::Y(), U::Z()); Ellipse e(U::X(), Angle(0.5), Angle(0.2), Angle(0));
    auto quiet = [&](auto f) { try { f(); } catch (std::exception const &) {} };
    quiet([&] { b = r.contains(place(g)); }); quiet([&] { b = r.contains(0.5, 0.25); }); quiet([&] { r.getBoundingBox(); }); quiet([&] { r.getBoundingCircle(); }); quiet([&] { r.getBoundingBox3d(); });
    quiet([&] { r.relate(k); }); quiet([&] { r.relate(x); }); quiet([&] { r.relate(t); }); quiet([&] { r.relate(e); }); quiet([&] { k.relate(r); }); quiet([&] { t.relate(r); }); quiet([&] { r.relate(r); });
    auto c = r.clone(); if (c->encode() != r.encode() || typeid(*c) != typeid(r)) bad.str("clone differs");
}
template <class R> static std::unique_ptr<Region> as(uint8_t const * p, size_t n) { return std::unique_ptr<Region>(R::decode(p, n).release()); }
template <class R> static std::unique_ptr<Region> asV(Bytes const & b) { return std::unique_ptr<Region>(R::decode(b).release()); }
static std::unique_ptr<Region> decode(int via, uint8_t const * p, size_t n, bool vec) {
    Bytes v; if (vec) v.assign(p, p + n); v.shrink_to_fit();
    switch (via) { case 0: return vec ? asV<Region>(v) : as<Region>(p, n); case 1: return vec ? asV<CompoundRegion>(v) : as<CompoundRegion>(p, n); case 'b': return vec ? asV<Box>(v) : as<Box>(p, n); case 'c': return vec ? asV<Circle>(v) : as<Circle>(p, n); case 'e': return vec ? asV<Ellipse>(v) : as<Ellipse>(p, n);
        case 'p': return vec ? asV<ConvexPolygon>(v) : as<ConvexPolygon>(p, n); case 'u': return vec ? asV<UnionRegion>(v) : as<UnionRegion>(p, n); default: return vec ? asV<IntersectionRegion>(v) : as<IntersectionRegion>(p, n); }
}
static int rootVia(Rng & g, uint8_t t) { return g.chance(0.5) ? 0 : (t == 'u' || t == 'i') && g.chance(0.5) ? 1 : t; }
static void dec(Rng & g, Bytes const & b, int via, bool sane) {
    // a heap block of exactly this size: reading one byte more is caught
    std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]); if (b.size()) std::memcpy(p.get(), b.data(), b.size()); bool ok = false, documented = true, coords = false; Bytes again, second; J bad('[');
    try { auto r = decode(via, p.get(), b.size(), g.chance(0.3)); ok = true; p.reset(); again = r->encode(); use(*r, g, bad); auto r2 = Region::decode(again); if (typeid(*r2) != typeid(*r)) bad.str("another type"); second = r2->encode(); if (second == again) second.clear(); }
    catch (std::runtime_error const &) { if (ok) bad.str("what was decoded cannot be decoded again"); } catch (std::invalid_argument const &) { documented = false; coords = true; if (ok) bad.str("what was decoded cannot be decoded again"); } catch (std::exception const &) { documented = false; if (ok) bad.str("what was decoded cannot be decoded again"); } catch (...) { documented = false; bad.str("not an exception"); }
    os << J('{').skey("op", "dec").key("bytes", arr(b)).key("via", via).key("ok", ok).key("documented", documented).key("coords", coords).key("sane", sane).key("again", arr(again)).key("second", arr(second)).key("bad", bad.done()).done() << "\n";
}
static void enc(Rng & g, int depth) {
    Shape s = gen(g, depth); Region const & r = *s.r; Bytes b = r.encode(); J bad('['); std::string t = tree(r);
    if (!tangents(r)) bad.str("tangents");
    auto test = [&](std::unique_ptr<Region> d, char const * what) { if (!d || typeid(*d) != typeid(r)) { bad.str(std::string(what) + " type"); return; } if (tree(*d) != t) bad.str(std::string(what) + " fields"); if (d->encode() != b) bad.str(std::string(what) + " bytes");
        for (int k = 0; k < 4; ++k) { U u = place(g); if (d->contains(u) != r.contains(u)) bad.str(std::string(what) + " membership"); } if (auto p = dynamic_cast<Box const *>(&r)) if (!(dynamic_cast<Box &>(*d) == *p)) bad.str("=="); if (auto p = dynamic_cast<Circle const *>(&r)) if (p->getSquaredChordLength() == p->getSquaredChordLength() && !(dynamic_cast<Circle &>(*d) == *p)) bad.str("=="); if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) if (!(dynamic_cast<ConvexPolygon &>(*d) == *p)) bad.str("=="); if (auto p = dynamic_cast<Ellipse const *>(&r)) if (!(dynamic_cast<Ellipse &>(*d) == *p)) bad.str("=="); };
    try { test(decode(0, b.data(), b.size(), false), "generic"); test(decode(0, b.data(), b.size(), true), "generic vector"); test(decode(b[0], b.data(), b.size(), g.chance(0.5)), "typed"); if (b[0] == 'u' || b[0] == 'i') test(decode(1, b.data(), b.size(), g.chance(0.5)), "compound"); } catch (std::exception const & e) { bad.str("an encoded region is refused"); }
    os << J('{').skey("op", "enc").key("tree", t).key("bytes", arr(b)).key("bad", bad.done()).done() << "\n";
}
static void primitives(Rng & g) {
    J bad('['); for (int k = 0; k < 200; ++k) { uint64_t u = g.next() >> g.below(64); double d; std::memcpy(&d, &u, 8); Bytes x, y; encodeU64(u, x); encodeDouble(d, y); bool ok = x.size() == 8 && y.size() == 8; for (int j = 0; ok && j < 8; ++j) ok = x[j] == ((u >> (8 * j)) & 255) && (y[j] == x[j] || d != d); double e = ok ? decodeDouble(x.data()) : 0; ok = ok && decodeU64(x.data()) == u && (e == d || (e != e && d != d)); if (!ok) { bad.str("primitive"); break; } }
    Bytes b = Box::full().encode(); os << J('{').skey("op", "enc").key("tree", tree(Box::full())).key("bytes", arr(b)).key("bad", bad.done()).done() << "\n";
}
static void lengthEdit(Rng & g, Bytes & b) { // change a nested length
    size_t at = 1; for (int k = g.below(4); k > 0 && at + 9 < b.size() && (b[at + 8] == 'u' || b[at + 8] == 'i'); --k) at += 9;
    uint64_t v = 0; for (int k = 0; k < 8; ++k) v |= (uint64_t)b[at + k] << (8 * k); if (g.chance(0.3) && at + 8 + v + 8 <= b.size()) { at += 8 + v; v = 0; for (int k = 0; k < 8; ++k) v |= (uint64_t)b[at + k] << (8 * k); }
    switch (g.below(10)) { case 0: v += 1; break; case 1: v -= 1; break; case 2: v = ~0ull; break; case 3: v = 1ull << 63; break; case 4: v = b.size(); break; case 5: v = 0; break; case 6: v = b.size() - at - 8; break; case 7: v += 1ull << (8 * g.range(1, 7)); break; case 8: v = 0 - (uint64_t)at - 8; break; default: v = g.next() >> g.below(60); }
    for (int k = 0; k < 8; ++k) b[at + k] = v >> (8 * k);
}
static void mutate(Rng & g, int i) {
    static int const types[] = {'b', 'c', 'e', 'p', 'u', 'i'}; Bytes b = g.chance(0.2) ? nested(g, g.range(1, 6), *gen(g, 0).r) : gen(g, g.chance(0.5) ? g.range(1, 2) : 0).r->encode(); bool sane = false;
    switch (i % 12) {
        case 0: sane = true; break;
        case 1: b.resize(g.below(b.size())); break;
        case 2: for (int k = g.range(1, 60); k > 0; --k) b.push_back(g.below(256)); break;
        case 3: b[0] = types[g.below(6)]; break;
        case 4: case 5: case 6: b = nested(g, g.range(1, 4), *gen(g, 0).r); lengthEdit(g, b); break;
        case 7: for (int k = g.range(1, 4); k > 0; --k) b[g.below(b.size())] = g.chance(0.5) ? 255 : g.below(256); break;
        case 8: { size_t n = g.below(40); b.clear(); if (n) { b.push_back(types[g.below(6)]); while (b.size() < n) b.push_back(g.chance(0.5) ? 0 : g.below(256)); } break; }
        case 9: { size_t a = g.below(b.size()); b.erase(b.begin() + a, b.begin() + a + 1 + g.below(std::min<size_t>(24, b.size() - a))); break; }
        case 10: { Bytes c = gen(g, 0).r->encode(); b.insert(b.begin() + g.below(b.size() + 1), c.begin(), c.end()); break; }
        default: { // a box, circle, ellipse or polygon of arbitrary doubles
            b = gen(g, 0).r->encode(); for (size_t k = 1; k + 8 <= b.size(); k += 8) { double d; switch (g.below(9)) { case 0: d = 0; break; case 1: d = -0.0; break; case 2: d = std::nan(""); break; case 3: d = HUGE_VAL; break; case 4: d = -HUGE_VAL; break; case 5: d = 1e300; break; case 6: d = g.real(-10, 10); break; case 7: d = 5e-324; break; default: continue; } std::memcpy(&b[k], &d, 8); } }
    }
    dec(g, b, sane ? rootVia(g, b[0]) : g.chance(0.5) ? 0 : g.chance(0.5) && !b.empty() ? b[0] == 'u' || b[0] == 'i' || b[0] == 'b' || b[0] == 'c' || b[0] == 'e' || b[0] == 'p' ? b[0] : 0 : g.chance(0.3) ? 1 : types[g.below(6)], sane);
}
static void exhaustive(Rng & g) { // every truncation of small encodings, every type of decoder
    static int const vias[] = {0, 1, 'b', 'c', 'e', 'p', 'u', 'i'};
    Bytes list[] = {Box::full().encode(), Circle(place(g), Angle(0.5)).encode(), Ellipse(place(g), Angle(0.5)).encode(), genPoly(g, place(g), 0.5).r->encode(), UnionRegion(Circle::full(), Box::full()).encode(), IntersectionRegion(Box::empty(), UnionRegion(Circle(), Box())).encode()};
    for (auto & b : list) { for (size_t n = 0; n <= b.size(); ++n) { Bytes c(b.begin(), b.begin() + n); dec(g, c, 0, n == b.size()); if (n % 8 <= 1 && g.chance(0.5)) dec(g, c, b[0], n == b.size()); } for (int v : vias) { bool fit = v == 0 || v == b[0] || (v == 1 && (b[0] == 'u' || b[0] == 'i')); dec(g, b, v, fit); Bytes c; dec(g, c, v, false); c.push_back(v < 2 ? 'u' : v); dec(g, c, v, false); } }
    J bad('['); for (int v : vias) for (size_t n : {(size_t)0, (size_t)33, (size_t)73, (size_t)1000}) { bool thrown = false; try { decode(v, nullptr, n, false); } catch (std::runtime_error const &) { thrown = true; } if (!thrown) bad.str("null accepted"); }
    os << J('{').skey("op", "dec").key("bytes", J('[').done()).key("via", 0).key("ok", false).key("documented", true).key("coords", false).key("sane", false).key("again", J('[').done()).key("second", J('[').done()).key("bad", bad.done()).done() << "\n";
}
int main(int, char ** v) {
    std::string mode = v[1]; os.open(v[2]); Rng g(atoll(v[3])); int n = atoi(v[4]);
    if (mode == "enc") { primitives(g); for (int i = 0; i < n; ++i) enc(g, i % 5 < 3 ? 0 : g.range(1, 3)); }
    else { exhaustive(g); for (int i = 0; i < n; ++i) mutate(g, i); }
    return 0;
}
