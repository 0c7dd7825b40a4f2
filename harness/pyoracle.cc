// What the C++ library answers for the calls harness/pydrive.py makes through the Python bindings. Reads lines
// "<name>:<signature> <token>..." and prints the token of the result ("!<Python exception class>" when the call throws).
#include "util.h"
#include <functional>
#include <map>
#include <sstream>
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
using namespace lsst::sphgeom;
typedef std::string Str;
typedef uint64_t u64;
typedef std::unique_ptr<Region> RP;

// ---- tokens
static std::vector<Str> cut(Str const & t, char sep, size_t from) {
    std::vector<Str> v; Str cur;
    if (from >= t.size()) return v;
    for (size_t i = from; i < t.size(); ++i) if (t[i] == sep) { v.push_back(cur); cur.clear(); } else cur += t[i];
    v.push_back(cur); return v;
}
static std::vector<double> dbls(Str const & t) {
    std::vector<double> r;
    for (auto & s : cut(t, ',', 2)) {
        if (s == "nan") { r.push_back(std::nan("")); continue; }
        u64 b = strtoull(s.c_str(), 0, 16); double d; memcpy(&d, &b, 8); r.push_back(d);
    }
    return r;
}
static Str hx(double d) { if (d != d) return "nan"; u64 b; memcpy(&b, &d, 8); char s[20]; snprintf(s, 20, "%016llx", (unsigned long long)b); return s; }
static Str list(std::vector<double> const & v, char c) { Str s(1, c); s += ":"; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + hx(v[i]); return s; }
static NormalizedAngle norm(double d) {  // any bit pattern a NormalizedAngle can hold
    NormalizedAngle a; memcpy((void *)&a, &d, 8); return a;
}
static_assert(sizeof(NormalizedAngle) == 8, "representation");
static Interval1d iv(double a, double b) { return Interval1d(a, b); }

template <class T> struct Tok;
template <> struct Tok<double> { static double in(Str const & t) { return dbls(t)[0]; } static Str out(double v) { return list({v}, 'd'); } };
template <> struct Tok<bool> { static Str out(bool v) { return v ? "b:1" : "b:0"; } };
template <> struct Tok<int> { static int in(Str const & t) { return atoi(t.c_str() + 2); } static Str out(int v) { return "i:" + std::to_string(v); } };
template <> struct Tok<u64> { static u64 in(Str const & t) { return strtoull(t.c_str() + 2, 0, 10); } static Str out(u64 v) { return "i:" + std::to_string(v); } };
template <> struct Tok<uint32_t> { static uint32_t in(Str const & t) { return strtoull(t.c_str() + 2, 0, 10); } static Str out(uint32_t v) { return "i:" + std::to_string(v); } };
template <> struct Tok<uint8_t> { static Str out(uint8_t v) { return "i:" + std::to_string((int)v); } };
template <> struct Tok<Str> { static Str in(Str const & t) { return t.substr(2); } static Str out(Str const & v) { return "s:" + v; } };
template <> struct Tok<Relationship> { static Relationship in(Str const & t) { return Relationship(strtoull(t.c_str() + 2, 0, 10)); } static Str out(Relationship v) { return "i:" + std::to_string(v.to_ulong()); } };
template <> struct Tok<Angle> { static Angle in(Str const & t) { return Angle(dbls(t)[0]); } static Str out(Angle v) { return list({v.asRadians()}, 'a'); } };
template <> struct Tok<NormalizedAngle> {
    static NormalizedAngle in(Str const & t) { return t[0] == 'n' ? norm(dbls(t)[0]) : NormalizedAngle(Angle(dbls(t)[0])); }
    static Str out(NormalizedAngle v) { return list({v.asRadians()}, 'n'); }
};
template <> struct Tok<LonLat> { static LonLat in(Str const & t) { auto d = dbls(t); return LonLat(norm(d[0]), Angle(d[1])); } static Str out(LonLat const & v) { return list({v.getLon().asRadians(), v.getLat().asRadians()}, 'L'); } };
template <> struct Tok<Vector3d> { static Vector3d in(Str const & t) { auto d = dbls(t); return Vector3d(d[0], d[1], d[2]); } static Str out(Vector3d const & v) { return list({v.x(), v.y(), v.z()}, 'v'); } };
template <> struct Tok<UnitVector3d> { static UnitVector3d in(Str const & t) { auto d = dbls(t); return UnitVector3d::fromNormalized(d[0], d[1], d[2]); } static Str out(UnitVector3d const & v) { return list({v.x(), v.y(), v.z()}, 'U'); } };
template <> struct Tok<Matrix3d> {
    static Matrix3d in(Str const & t) { auto d = dbls(t); return Matrix3d(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]); }
    static Str out(Matrix3d const & m) { std::vector<double> v; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) v.push_back(m(i, j)); return list(v, 'M'); }
};
template <> struct Tok<Interval1d> { static Interval1d in(Str const & t) { auto d = dbls(t); return iv(d[0], d[1]); } static Str out(Interval1d const & v) { return list({v.getA(), v.getB()}, 'I'); } };
template <> struct Tok<AngleInterval> { static AngleInterval in(Str const & t) { auto d = dbls(t); return AngleInterval(Angle(d[0]), Angle(d[1])); } static Str out(AngleInterval const & v) { return list({v.getA().asRadians(), v.getB().asRadians()}, 'A'); } };
template <> struct Tok<NormalizedAngleInterval> { static NormalizedAngleInterval in(Str const & t) { auto d = dbls(t); return NormalizedAngleInterval(norm(d[0]), norm(d[1])); } static Str out(NormalizedAngleInterval const & v) { return list({v.getA().asRadians(), v.getB().asRadians()}, 'N'); } };
template <> struct Tok<Box3d> {
    static Box3d in(Str const & t) { auto d = dbls(t); return Box3d(iv(d[0], d[1]), iv(d[2], d[3]), iv(d[4], d[5])); }
    static Str out(Box3d const & v) { return list({v.x().getA(), v.x().getB(), v.y().getA(), v.y().getB(), v.z().getA(), v.z().getB()}, '3'); }
};
static std::vector<uint8_t> bytes(Str const & t) { std::vector<uint8_t> b; for (size_t i = 2; i + 1 < t.size(); i += 2) b.push_back((uint8_t)strtoul(t.substr(i, 2).c_str(), 0, 16)); return b; }
static Str hexed(std::vector<uint8_t> const & b, char c) { Str s(1, c); s += ":"; char x[3]; for (auto u : b) { snprintf(x, 3, "%02x", u); s += x; } return s; }
template <class T> struct RegTok { static T in(Str const & t) { return *T::decode(bytes(t)); } static Str out(T const & v) { return hexed(v.encode(), 'R'); } };
template <> struct Tok<Box> : RegTok<Box> {};
template <> struct Tok<Circle> : RegTok<Circle> {};
template <> struct Tok<ConvexPolygon> : RegTok<ConvexPolygon> {};
template <> struct Tok<Ellipse> : RegTok<Ellipse> {};
template <> struct Tok<UnionRegion> : RegTok<UnionRegion> {};
template <> struct Tok<IntersectionRegion> : RegTok<IntersectionRegion> {};
template <> struct Tok<RP> { static RP in(Str const & t) { return Region::decode(bytes(t)); } static Str out(RP const & v) { return hexed(v->encode(), 'R'); } };
template <> struct Tok<RangeSet> {
    static RangeSet in(Str const & t) { RangeSet r; for (auto & s : cut(t, ',', 2)) { size_t p = s.find('-'); u64 a = strtoull(s.c_str(), 0, 10), b = strtoull(s.c_str() + p + 1, 0, 10); r.insert(a, b); } return r; }
    static Str out(RangeSet const & r) { Str s = "S:"; bool f = true; for (auto t : r) { s += (f ? "" : ",") + std::to_string(std::get<0>(t)) + "-" + std::to_string(std::get<1>(t)); f = false; } return s; }
};
template <> struct Tok<HtmPixelization> { static HtmPixelization in(Str const & t) { return HtmPixelization(atoi(t.c_str() + 2)); } static Str out(HtmPixelization const & v) { return "H:" + std::to_string(v.getLevel()); } };
template <> struct Tok<Q3cPixelization> { static Q3cPixelization in(Str const & t) { return Q3cPixelization(atoi(t.c_str() + 2)); } static Str out(Q3cPixelization const & v) { return "Q:" + std::to_string(v.getLevel()); } };
template <> struct Tok<Mq3cPixelization> { static Mq3cPixelization in(Str const & t) { return Mq3cPixelization(atoi(t.c_str() + 2)); } static Str out(Mq3cPixelization const & v) { return "m:" + std::to_string(v.getLevel()); } };
template <> struct Tok<Chunker> {
    static Chunker in(Str const & t) { auto s = cut(t, ',', 2); return Chunker(atoi(s[0].c_str()), atoi(s[1].c_str())); }
    static Str out(Chunker const & v) { return "c:" + std::to_string(v.getNumStripes()) + "," + std::to_string(v.getNumSubStripesPerStripe()); }
};
template <class E> struct Tok<std::vector<E>> {
    static Str out(std::vector<E> const & v) { Str s = "T["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ";" : "") + Tok<E>::out(v[i]); return s + "]"; }
    static std::vector<E> in(Str const & t) { std::vector<E> r; for (auto & s : cut(t.substr(0, t.size() - 1), ';', 2)) r.push_back(Tok<E>::in(s)); return r; }
};
template <class A, class B> struct Tok<std::pair<A, B>> { static Str out(std::pair<A, B> const & p) { return "T[" + Tok<A>::out(p.first) + ";" + Tok<B>::out(p.second) + "]"; } };
template <> struct Tok<std::tuple<uint32_t, uint32_t>> { static Str out(std::tuple<uint32_t, uint32_t> const & p) { return "T[" + Tok<uint32_t>::out(std::get<0>(p)) + ";" + Tok<uint32_t>::out(std::get<1>(p)) + "]"; } };
template <> struct Tok<SubChunks> { static Str out(SubChunks const & p) { return "T[" + Tok<int>::out(p.chunkId) + ";" + Tok<std::vector<int32_t>>::out(p.subChunkIds) + "]"; } };

// ---- registry
struct Raw { Str s; };  // a ready made token
template <> struct Tok<Raw> { static Str out(Raw const & r) { return r.s; } };

typedef std::vector<Str> Args;
static std::map<Str, std::function<Str(Args const &)>> F;
template <class T> using Bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
// a reference to a base class is read as an owned region
template <class T> struct Arg { Bare<T> v; explicit Arg(Str const & t) : v(Tok<Bare<T>>::in(t)) {} Bare<T> & get() { return v; } };
template <> struct Arg<Region const &> { RP v; explicit Arg(Str const & t) : v(Tok<RP>::in(t)) {} Region const & get() { return *v; } };
template <> struct Arg<Pixelization const &> {
    std::unique_ptr<Pixelization> v;
    explicit Arg(Str const & t) { int l = atoi(t.c_str() + 2); if (t[0] == 'H') v.reset(new HtmPixelization(l)); else if (t[0] == 'Q') v.reset(new Q3cPixelization(l)); else v.reset(new Mq3cPixelization(l)); }
    Pixelization const & get() { return *v; }
};
template <class R, class... A, size_t... I> Str invoke(std::function<R(A...)> const & f, Args const & a, std::index_sequence<I...>) {
    std::tuple<Arg<A>...> t{Arg<A>(a.at(I))...};
    return Tok<Bare<R>>::out(f(std::get<I>(t).get()...));
}
template <class R, class... A> void reg(Str const & k, std::function<R(A...)> f) {
    F[k] = [f](Args const & a) { return invoke(f, a, std::index_sequence_for<A...>()); };
}
template <class T> struct Sig : Sig<decltype(&T::operator())> {};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const> { typedef std::function<R(A...)> type; };
template <class L> void def(Str const & k, L l) { reg(k, typename Sig<L>::type(l)); }
#define SELF(C, k, expr) def(k, [](C const & s) { return expr; })
#define M1(C, k, T, expr) def(k, [](C const & s, T x) { return expr; })

template <class T> void eqs(Str const & c) {
    def("==:" + c + c, [](T const & a, T const & b) { return a == b; });
    def("!=:" + c + c, [](T const & a, T const & b) { return a != b; });
}
// contains, relate, clip and expand families of a type for an operand type
template <class T, class X> void rels(Str const & n, Str const & sig, bool isin = true) {
    def(n + ".contains:" + sig, [](T const & a, X const & b) { return a.contains(b); });
    if (isin) def("in:" + sig, [](T const & a, X const & b) { return a.contains(b); });
    def(n + ".isDisjointFrom:" + sig, [](T const & a, X const & b) { return a.isDisjointFrom(b); });
    def(n + ".intersects:" + sig, [](T const & a, X const & b) { return a.intersects(b); });
    def(n + ".isWithin:" + sig, [](T const & a, X const & b) { return a.isWithin(b); });
}
template <class T, class X> void relate(Str const & n, Str const & sig) { def(n + ".relate:" + sig, [](T const & a, X const & b) { return a.relate(b); }); }
template <class T, class X> void setops(Str const & n, Str const & sig) {
    def(n + ".clipTo!:" + sig, [](T const & a, X const & b) { T r(a); r.clipTo(b); return r; });
    def(n + ".clippedTo:" + sig, [](T const & a, X const & b) { return T(a.clippedTo(b)); });
    def(n + ".expandTo!:" + sig, [](T const & a, X const & b) { T r(a); r.expandTo(b); return r; });
    def(n + ".expandedTo:" + sig, [](T const & a, X const & b) { return T(a.expandedTo(b)); });
}
template <class T, class X> void grow(Str const & n, Str const & sig) {
    def(n + ".dilateBy!:" + sig, [](T const & a, X b) { T r(a); r.dilateBy(b); return r; });
    def(n + ".dilatedBy:" + sig, [](T const & a, X b) { return T(a.dilatedBy(b)); });
    def(n + ".erodeBy!:" + sig, [](T const & a, X b) { T r(a); r.erodeBy(b); return r; });
    def(n + ".erodedBy:" + sig, [](T const & a, X b) { return T(a.erodedBy(b)); });
}
template <class T, class SC, class DIL> void interval(Str const & n, Str const & c, Str const & sc, Str const & dil) {
    eqs<T>(c);
    def("==:" + c + sc, [](T const & a, SC b) { return a == b; });
    def("!=:" + c + sc, [](T const & a, SC b) { return a != b; });
    def(n + ".getA:" + c, [](T const & s) { return s.getA(); });
    def(n + ".getB:" + c, [](T const & s) { return s.getB(); });
    def(n + ".isEmpty:" + c, [](T const & s) { return s.isEmpty(); });
    def(n + ".getCenter:" + c, [](T const & s) { return s.getCenter(); });
    def(n + ".getSize:" + c, [](T const & s) { return s.getSize(); });
    rels<T, SC>(n, c + sc); rels<T, T>(n, c + c); relate<T, SC>(n, c + sc); relate<T, T>(n, c + c);
    setops<T, SC>(n, c + sc); setops<T, T>(n, c + c); grow<T, DIL>(n, c + dil);
    def(n + "():", []() { return T(); });
    def(n + "():" + sc, [](SC x) { return T(x); });
    def(n + "():" + sc + sc, [](SC x, SC y) { return T(x, y); });
    def(n + "():" + c, [](T const & s) { return T(s); });
    def(n + "::empty:", []() { return T::empty(); });
    def(n + "::full:", []() { return T::full(); });
}
template <class T> void angleLike(Str const & n, Str const & c) {
    eqs<T>(c);
    def("<:" + c + "a", [](T const & a, Angle b) { return a < b; });
    def(">:" + c + "a", [](T const & a, Angle b) { return a > b; });
    def("<=:" + c + "a", [](T const & a, Angle b) { return a <= b; });
    def(">=:" + c + "a", [](T const & a, Angle b) { return a >= b; });
    def("neg:" + c, [](T const & a) { return -a; });
    def("+:" + c + "a", [](T const & a, Angle b) { return a + b; });
    def("-:" + c + "a", [](T const & a, Angle b) { return a - b; });
    def("*:" + c + "d", [](T const & a, double b) { return a * b; });
    def("*:d" + c, [](double b, T const & a) { return b * a; });
    def("/:" + c + "d", [](T const & a, double b) { return a / b; });
    def("/:" + c + "a", [](T const & a, Angle b) { return a / b; });
    def(n + ".asDegrees:" + c, [](T const & a) { return a.asDegrees(); });
    def(n + ".asRadians:" + c, [](T const & a) { return a.asRadians(); });
    def(n + ".isNan:" + c, [](T const & a) { return a.isNan(); });
    def(n + "::nan:", []() { return T::nan(); });
    def(n + "::fromDegrees:d", [](double d) { return T::fromDegrees(d); });
    def(n + "::fromRadians:d", [](double d) { return T::fromRadians(d); });
    def(n + "():", []() { return T(); });
    def(n + "():d", [](double d) { return T(d); });
}
template <class T> void region(Str const & n, Str const & c) {
    def(n + ".clone:" + c, [](T const & s) { return RP(s.clone()); });
    def(n + ".getBoundingBox:" + c, [](T const & s) { return s.getBoundingBox(); });
    def(n + ".getBoundingBox3d:" + c, [](T const & s) { return s.getBoundingBox3d(); });
    def(n + ".getBoundingCircle:" + c, [](T const & s) { return s.getBoundingCircle(); });
    def(n + ".contains:" + c + "U", [](T const & s, UnitVector3d const & v) { return s.contains(v); });
    def(n + ".contains:" + c + "xxx", [](T const & s, double x, double y, double z) { return s.contains(UnitVector3d(x, y, z)); });
    def(n + ".contains:" + c + "gg", [](T const & s, double a, double b) { return s.contains(UnitVector3d(LonLat::fromRadians(a, b))); });
    def("in:" + c + "U", [](T const & s, UnitVector3d const & v) { return s.contains(v); });
    def(n + ".containsArray:" + c + "G", [](T const & s, std::vector<double> const & v) {
        std::vector<bool> r; for (size_t i = 0; i + 1 < v.size(); i += 2) r.push_back(s.contains(UnitVector3d(LonLat::fromRadians(v[i], v[i + 1])))); return r; });
    def(n + ".relate:" + c + "X", [](T const & s, Region const & o) { return s.relate(o); });
    def(n + ".encode:" + c, [](T const & s) { return Raw{hexed(s.encode(), 'y')}; });
    def(n + ".recode:" + c, [](T const & s) { return Region::decode(s.encode()); });
    def(n + ".regions:" + c, [](T const & s) { return Region::getRegions(s); });
}
template <class T> void pixelization(Str const & n, Str const & c) {
    def(n + "():l", [](int l) { return T(l); });
    def(n + "():" + c, [](T const & s) { return T(s); });
    def(n + ".getLevel:" + c, [](T const & s) { return s.getLevel(); });
    def("==:" + c + c, [](T const & s, T const & o) { return s.getLevel() == o.getLevel(); });
    def("!=:" + c + c, [](T const & s, T const & o) { return s.getLevel() != o.getLevel(); });
    def(n + ".universe:" + c, [](T const & s) { return s.universe(); });
    def(n + ".pixel:" + c + "k", [](T const & s, u64 i) { return s.pixel(i); });
    def(n + ".index:" + c + "U", [](T const & s, UnitVector3d const & v) { return s.index(v); });
    def(n + ".toString:" + c + "k", [](T const & s, u64 i) { return s.toString(i); });
    def(n + ".envelope:" + c + "X", [](T const & s, Region const & r) { return s.envelope(r, 0); });
    def(n + ".interior:" + c + "X", [](T const & s, Region const & r) { return s.interior(r, 0); });
    def(n + ".envelope:" + c + "Xr", [](T const & s, Region const & r, int m) { return s.envelope(r, m); });
    def(n + ".interior:" + c + "Xr", [](T const & s, Region const & r, int m) { return s.interior(r, m); });
}
static void idx(int len, int & i) { if (i < -len || i >= len) throw std::out_of_range("index"); if (i < 0) i += len; }
static std::vector<u64> flat(RangeSet const & r) { std::vector<u64> v; for (auto t : r) { v.push_back(std::get<0>(t)); v.push_back(std::get<1>(t)); } return v; }
static Str rangesTok(RangeSet const & r) { auto v = flat(r); Str s = "T["; for (size_t i = 0; i < v.size(); i += 2) s += Str(i ? ";" : "") + "T[i:" + std::to_string(v[i]) + ";i:" + std::to_string(v[i + 1]) + "]"; return s + "]"; }

static std::vector<UnitVector3d> units(std::vector<double> const & d) { std::vector<UnitVector3d> p; for (size_t i = 0; i + 2 < d.size(); i += 3) p.push_back(UnitVector3d(d[i], d[i + 1], d[i + 2])); return p; }

static void build() {
    // angles
    angleLike<Angle>("Angle", "a"); angleLike<NormalizedAngle>("NormalizedAngle", "n");
    def("Angle():a", [](Angle a) { return Angle(a); });
    def("Angle():n", [](NormalizedAngle a) { return Angle(a); });
    def("Angle.isNormalized:a", [](Angle a) { return a.isNormalized(); });
    def("+=!:aa", [](Angle a, Angle b) { a += b; return a; });
    def("-=!:aa", [](Angle a, Angle b) { a -= b; return a; });
    def("*=!:ad", [](Angle a, double b) { a *= b; return a; });
    def("/=!:ad", [](Angle a, double b) { a /= b; return a; });
    def("NormalizedAngle():n", [](NormalizedAngle a) { return NormalizedAngle(a); });
    def("NormalizedAngle():a", [](Angle a) { return NormalizedAngle(a); });
    def("NormalizedAngle():LL", [](LonLat const & a, LonLat const & b) { return NormalizedAngle(a, b); });
    def("NormalizedAngle():vv", [](Vector3d const & a, Vector3d const & b) { return NormalizedAngle(a, b); });
    def("NormalizedAngle::between:nn", [](NormalizedAngle a, NormalizedAngle b) { return NormalizedAngle::between(a, b); });
    def("NormalizedAngle::center:nn", [](NormalizedAngle a, NormalizedAngle b) { return NormalizedAngle::center(a, b); });
    def("NormalizedAngle.getAngleTo:nn", [](NormalizedAngle a, NormalizedAngle b) { return a.getAngleTo(b); });
    // coordinates
    eqs<LonLat>("L");
    def("LonLat():", []() { return LonLat(); });
    def("LonLat():L", [](LonLat const & l) { return LonLat(l); });
    def("LonLat():na", [](NormalizedAngle a, Angle b) { return LonLat(a, b); });
    def("LonLat():v", [](Vector3d const & v) { return LonLat(v); });
    def("LonLat::fromDegrees:tt", [](double a, double b) { return LonLat::fromDegrees(a, b); });
    def("LonLat::fromRadians:gg", [](double a, double b) { return LonLat::fromRadians(a, b); });
    def("LonLat::latitudeOf:v", [](Vector3d const & v) { return LonLat::latitudeOf(v); });
    def("LonLat::longitudeOf:v", [](Vector3d const & v) { return LonLat::longitudeOf(v); });
    SELF(LonLat, "LonLat.getLon:L", s.getLon()); SELF(LonLat, "LonLat.getLat:L", s.getLat());
    def("len:L", [](LonLat const &) { return 2; });
    def("[]:Li", [](LonLat const & l, int i) { idx(2, i); return i ? Raw{Tok<Angle>::out(l.getLat())} : Raw{Tok<NormalizedAngle>::out(l.getLon())}; });
    def("iter:L", [](LonLat const & l) { return Raw{"T[" + Tok<NormalizedAngle>::out(l.getLon()) + ";" + Tok<Angle>::out(l.getLat()) + "]"}; });
    // vectors
    eqs<Vector3d>("v"); eqs<UnitVector3d>("U");
    def("Vector3d():", []() { return Vector3d(); });
    def("Vector3d():ddd", [](double x, double y, double z) { return Vector3d(x, y, z); });
    def("Vector3d():v", [](Vector3d const & v) { return Vector3d(v); });
    def("Vector3d():U", [](UnitVector3d const & v) { return Vector3d(v); });
    def("neg:v", [](Vector3d const & v) { return -v; }); def("neg:U", [](UnitVector3d const & v) { return -v; });
    def("+:vv", [](Vector3d const & a, Vector3d const & b) { return a + b; }); def("+:Uv", [](UnitVector3d const & a, Vector3d const & b) { return a + b; });
    def("-:vv", [](Vector3d const & a, Vector3d const & b) { return a - b; }); def("-:Uv", [](UnitVector3d const & a, Vector3d const & b) { return a - b; });
    def("*:vd", [](Vector3d const & a, double b) { return a * b; }); def("*:Ud", [](UnitVector3d const & a, double b) { return a * b; });
    def("/:vd", [](Vector3d const & a, double b) { return a / b; }); def("/:Ud", [](UnitVector3d const & a, double b) { return a / b; });
    def("+=!:vv", [](Vector3d a, Vector3d const & b) { a += b; return a; });
    def("-=!:vv", [](Vector3d a, Vector3d const & b) { a -= b; return a; });
    def("*=!:vd", [](Vector3d a, double b) { a *= b; return a; });
    def("/=!:vd", [](Vector3d a, double b) { a /= b; return a; });
#define XYZ(T, n, c) SELF(T, n ".x:" c, s.x()); SELF(T, n ".y:" c, s.y()); SELF(T, n ".z:" c, s.z()); \
    def("len:" c, [](T const &) { return 3; }); \
    def("[]:" c "i", [](T const & v, int i) { idx(3, i); return v(i); }); \
    def("iter:" c, [](T const & v) { return Raw{"T[" + Tok<Bare<decltype(v(0))>>::out(v(0)) + ";" + Tok<Bare<decltype(v(0))>>::out(v(1)) + ";" + Tok<Bare<decltype(v(0))>>::out(v(2)) + "]"}; });
    XYZ(Vector3d, "Vector3d", "v") XYZ(UnitVector3d, "UnitVector3d", "U") XYZ(Box3d, "Box3d", "3")
    SELF(Vector3d, "Vector3d.getSquaredNorm:v", s.getSquaredNorm()); SELF(Vector3d, "Vector3d.getNorm:v", s.getNorm());
    SELF(Vector3d, "Vector3d.isZero:v", s.isZero()); SELF(Vector3d, "Vector3d.isNormalized:v", s.isNormalized());
    def("Vector3d.normalize!:v", [](Vector3d v) { v.normalize(); return v; });
    M1(Vector3d, "Vector3d.dot:vv", Vector3d const &, s.dot(x)); M1(UnitVector3d, "UnitVector3d.dot:Uv", Vector3d const &, s.dot(x));
    M1(Vector3d, "Vector3d.cross:vv", Vector3d const &, s.cross(x)); M1(UnitVector3d, "UnitVector3d.cross:Uv", Vector3d const &, s.cross(x));
    M1(Vector3d, "Vector3d.cwiseProduct:vv", Vector3d const &, s.cwiseProduct(x)); M1(UnitVector3d, "UnitVector3d.cwiseProduct:Uv", Vector3d const &, s.cwiseProduct(x));
    M1(UnitVector3d, "UnitVector3d.robustCross:UU", UnitVector3d const &, s.robustCross(x));
    def("Vector3d.rotatedAround:vUa", [](Vector3d const & v, UnitVector3d const & k, Angle a) { return v.rotatedAround(k, a); });
    def("UnitVector3d.rotatedAround:UUa", [](UnitVector3d const & v, UnitVector3d const & k, Angle a) { return v.rotatedAround(k, a); });
    def("UnitVector3d():", []() { return UnitVector3d(); });
    def("UnitVector3d():U", [](UnitVector3d const & u) { return UnitVector3d(u); });
    def("UnitVector3d():v", [](Vector3d const & v) { return UnitVector3d(v); });
    def("UnitVector3d():xxx", [](double x, double y, double z) { return UnitVector3d(x, y, z); });
    def("UnitVector3d():L", [](LonLat const & l) { return UnitVector3d(l); });
    def("UnitVector3d():aa", [](Angle a, Angle b) { return UnitVector3d(a, b); });
    def("UnitVector3d::orthogonalTo:v", [](Vector3d const & v) { return UnitVector3d::orthogonalTo(v); });
    def("UnitVector3d::orthogonalTo:vv", [](Vector3d const & v, Vector3d const & w) { return UnitVector3d::orthogonalTo(v, w); });
    def("UnitVector3d::orthogonalTo:n", [](NormalizedAngle v) { return UnitVector3d::orthogonalTo(v); });
    def("UnitVector3d::northFrom:v", [](Vector3d const & v) { return UnitVector3d::northFrom(v); });
    def("UnitVector3d::X:", []() { return UnitVector3d::X(); }); def("UnitVector3d::Y:", []() { return UnitVector3d::Y(); }); def("UnitVector3d::Z:", []() { return UnitVector3d::Z(); });
    // matrices
    eqs<Matrix3d>("M");
    def("Matrix3d():", []() { return Matrix3d(); });
    def("Matrix3d():ddddddddd", [](double a, double b, double c, double d, double e, double f, double g, double h, double i) { return Matrix3d(a, b, c, d, e, f, g, h, i); });
    def("Matrix3d():v", [](Vector3d const & v) { return Matrix3d(v); });
    def("Matrix3d():d", [](double d) { return Matrix3d(d); });
    def("Matrix3d():M", [](Matrix3d const & m) { return Matrix3d(m); });
    def("Matrix3d.getRow:Mi", [](Matrix3d const & m, int i) { idx(3, i); return m.getRow(i); });
    def("Matrix3d.getColumn:Mi", [](Matrix3d const & m, int i) { idx(3, i); return m.getColumn(i); });
    def("len:M", [](Matrix3d const &) { return 3; });
    def("[]:Mi", [](Matrix3d const & m, int i) { idx(3, i); return m.getRow(i); });
    def("[]:Mii", [](Matrix3d const & m, int i, int j) { idx(3, i); idx(3, j); return m(i, j); });
    M1(Matrix3d, "Matrix3d.inner:MM", Matrix3d const &, s.inner(x));
    SELF(Matrix3d, "Matrix3d.getSquaredNorm:M", s.getSquaredNorm()); SELF(Matrix3d, "Matrix3d.getNorm:M", s.getNorm());
    def("*:Mv", [](Matrix3d const & m, Vector3d const & v) { return m * v; }); def("*:MM", [](Matrix3d const & m, Matrix3d const & v) { return m * v; });
    def("+:MM", [](Matrix3d const & m, Matrix3d const & v) { return m + v; }); def("-:MM", [](Matrix3d const & m, Matrix3d const & v) { return m - v; });
    M1(Matrix3d, "Matrix3d.cwiseProduct:MM", Matrix3d const &, s.cwiseProduct(x));
    SELF(Matrix3d, "Matrix3d.transpose:M", s.transpose()); SELF(Matrix3d, "Matrix3d.inverse:M", s.inverse());
    // intervals
    interval<Interval1d, double, double>("Interval1d", "I", "d", "d");
    interval<AngleInterval, Angle, Angle>("AngleInterval", "A", "a", "a");
    interval<NormalizedAngleInterval, NormalizedAngle, Angle>("NormalizedAngleInterval", "N", "n", "n");
    grow<NormalizedAngleInterval, Angle>("NormalizedAngleInterval", "Nn");  // Python only offers normalized amounts
    SELF(Interval1d, "Interval1d.isFull:I", s.isFull());
    def("AngleInterval::fromDegrees:tt", [](double a, double b) { return AngleInterval::fromDegrees(a, b); });
    def("AngleInterval::fromRadians:gg", [](double a, double b) { return AngleInterval::fromRadians(a, b); });
    def("NormalizedAngleInterval::fromDegrees:tt", [](double a, double b) { return NormalizedAngleInterval::fromDegrees(a, b); });
    def("NormalizedAngleInterval::fromRadians:gg", [](double a, double b) { return NormalizedAngleInterval::fromRadians(a, b); });
    def("NormalizedAngleInterval():a", [](Angle a) { return NormalizedAngleInterval(a); });
    def("NormalizedAngleInterval():aa", [](Angle a, Angle b) { return NormalizedAngleInterval(a, b); });
    SELF(NormalizedAngleInterval, "NormalizedAngleInterval.isFull:N", s.isFull()); SELF(NormalizedAngleInterval, "NormalizedAngleInterval.wraps:N", s.wraps());
    // 3-d boxes
    eqs<Box3d>("3");
    def("==:3v", [](Box3d const & b, Vector3d const & v) { return b == v; }); def("!=:3v", [](Box3d const & b, Vector3d const & v) { return b != v; });
    def("Box3d():", []() { return Box3d(); });
    def("Box3d():v", [](Vector3d const & v) { return Box3d(v); });
    def("Box3d():vv", [](Vector3d const & v, Vector3d const & w) { return Box3d(v, w); });
    def("Box3d():vddd", [](Vector3d const & v, double a, double b, double c) { return Box3d(v, a, b, c); });
    def("Box3d():III", [](Interval1d const & a, Interval1d const & b, Interval1d const & c) { return Box3d(a, b, c); });
    def("Box3d():3", [](Box3d const & b) { return Box3d(b); });
    def("Box3d::empty:", []() { return Box3d::empty(); }); def("Box3d::full:", []() { return Box3d::full(); }); def("Box3d::aroundUnitSphere:", []() { return Box3d::aroundUnitSphere(); });
    SELF(Box3d, "Box3d.isEmpty:3", s.isEmpty()); SELF(Box3d, "Box3d.isFull:3", s.isFull()); SELF(Box3d, "Box3d.getCenter:3", s.getCenter());
    SELF(Box3d, "Box3d.getWidth:3", s.getWidth()); SELF(Box3d, "Box3d.getHeight:3", s.getHeight()); SELF(Box3d, "Box3d.getDepth:3", s.getDepth());
    rels<Box3d, Vector3d>("Box3d", "3v"); rels<Box3d, Box3d>("Box3d", "33"); relate<Box3d, Vector3d>("Box3d", "3v"); relate<Box3d, Box3d>("Box3d", "33");
    setops<Box3d, Vector3d>("Box3d", "3v"); setops<Box3d, Box3d>("Box3d", "33"); grow<Box3d, double>("Box3d", "3d");
    def("Box3d.contains:3ddd", [](Box3d const & b, double x, double y, double z) { return b.contains(Vector3d(x, y, z)); });
    def("Box3d.dilateBy!:3ddd", [](Box3d b, double x, double y, double z) { b.dilateBy(x, y, z); return b; });
    def("Box3d.dilatedBy:3ddd", [](Box3d const & b, double x, double y, double z) { return b.dilatedBy(x, y, z); });
    def("Box3d.erodeBy!:3ddd", [](Box3d b, double x, double y, double z) { b.erodeBy(x, y, z); return b; });
    def("Box3d.erodedBy:3ddd", [](Box3d const & b, double x, double y, double z) { return b.erodedBy(x, y, z); });
    // boxes
    eqs<Box>("B"); region<Box>("Box", "B");
    def("==:BL", [](Box const & b, LonLat const & l) { return b == l; }); def("!=:BL", [](Box const & b, LonLat const & l) { return b != l; });
    def("Box():", []() { return Box(); });
    def("Box():L", [](LonLat const & l) { return Box(l); });
    def("Box():LL", [](LonLat const & l, LonLat const & m) { return Box(l, m); });
    def("Box():Laa", [](LonLat const & l, Angle w, Angle h) { return Box(l, w, h); });
    def("Box():NA", [](NormalizedAngleInterval const & l, AngleInterval const & m) { return Box(l, m); });
    def("Box():B", [](Box const & b) { return Box(b); });
    def("Box::fromDegrees:tttt", [](double a, double b, double c, double d) { return Box::fromDegrees(a, b, c, d); });
    def("Box::fromRadians:gggg", [](double a, double b, double c, double d) { return Box::fromRadians(a, b, c, d); });
    def("Box::empty:", []() { return Box::empty(); }); def("Box::full:", []() { return Box::full(); });
    def("Box::halfWidthForCircle:aa", [](Angle r, Angle lat) { return Box::halfWidthForCircle(r, lat); });
    def("Box::allLongitudes:", []() { return Box::allLongitudes(); }); def("Box::allLatitudes:", []() { return Box::allLatitudes(); });
    SELF(Box, "Box.getLon:B", s.getLon()); SELF(Box, "Box.getLat:B", s.getLat()); SELF(Box, "Box.isEmpty:B", s.isEmpty()); SELF(Box, "Box.isFull:B", s.isFull());
    SELF(Box, "Box.getCenter:B", s.getCenter()); SELF(Box, "Box.getWidth:B", s.getWidth()); SELF(Box, "Box.getHeight:B", s.getHeight()); SELF(Box, "Box.getArea:B", s.getArea());
    rels<Box, LonLat>("Box", "BL"); rels<Box, Box>("Box", "BB"); relate<Box, LonLat>("Box", "BL"); setops<Box, LonLat>("Box", "BL"); setops<Box, Box>("Box", "BB"); grow<Box, Angle>("Box", "Ba");
    def("Box.dilateBy!:Baa", [](Box b, Angle x, Angle y) { b.dilateBy(x, y); return b; });
    def("Box.dilatedBy:Baa", [](Box const & b, Angle x, Angle y) { return b.dilatedBy(x, y); });
    def("Box.erodeBy!:Baa", [](Box b, Angle x, Angle y) { b.erodeBy(x, y); return b; });
    def("Box.erodedBy:Baa", [](Box const & b, Angle x, Angle y) { return b.erodedBy(x, y); });
    // circles
    eqs<Circle>("C"); region<Circle>("Circle", "C");
    def("Circle():", []() { return Circle(); });
    def("Circle():U", [](UnitVector3d const & u) { return Circle(u); });
    def("Circle():Ua", [](UnitVector3d const & u, Angle a) { return Circle(u, a); });
    def("Circle():Uq", [](UnitVector3d const & u, double a) { return Circle(u, a); });
    def("Circle():C", [](Circle const & c) { return Circle(c); });
    def("Circle::empty:", []() { return Circle::empty(); }); def("Circle::full:", []() { return Circle::full(); });
    def("Circle::squaredChordLengthFor:a", [](Angle a) { return Circle::squaredChordLengthFor(a); });
    def("Circle::openingAngleFor:q", [](double a) { return Circle::openingAngleFor(a); });
    SELF(Circle, "Circle.isEmpty:C", s.isEmpty()); SELF(Circle, "Circle.isFull:C", s.isFull()); SELF(Circle, "Circle.getCenter:C", s.getCenter());
    SELF(Circle, "Circle.getSquaredChordLength:C", s.getSquaredChordLength()); SELF(Circle, "Circle.getOpeningAngle:C", s.getOpeningAngle()); SELF(Circle, "Circle.getArea:C", s.getArea());
    rels<Circle, UnitVector3d>("Circle", "CU"); rels<Circle, Circle>("Circle", "CC"); setops<Circle, UnitVector3d>("Circle", "CU"); setops<Circle, Circle>("Circle", "CC"); grow<Circle, Angle>("Circle", "Ca");
    def("Circle.complement!:C", [](Circle c) { c.complement(); return c; }); def("Circle.complemented:C", [](Circle const & c) { return c.complemented(); });
    // polygons
    eqs<ConvexPolygon>("P"); region<ConvexPolygon>("ConvexPolygon", "P");
    def("ConvexPolygon():W", [](std::vector<double> const & d) { return ConvexPolygon(units(d)); });
    def("ConvexPolygon::convexHull:W", [](std::vector<double> const & d) { return ConvexPolygon::convexHull(units(d)); });
    def("ConvexPolygon():P", [](ConvexPolygon const & p) { return ConvexPolygon(p); });
    SELF(ConvexPolygon, "ConvexPolygon.getVertices:P", s.getVertices()); SELF(ConvexPolygon, "ConvexPolygon.getCentroid:P", s.getCentroid());
    M1(ConvexPolygon, "ConvexPolygon.contains:PX", Region const &, s.contains(x)); M1(ConvexPolygon, "ConvexPolygon.isDisjointFrom:PX", Region const &, s.isDisjointFrom(x));
    M1(ConvexPolygon, "ConvexPolygon.intersects:PX", Region const &, s.intersects(x)); M1(ConvexPolygon, "ConvexPolygon.isWithin:PX", Region const &, s.isWithin(x));
    // ellipses
    eqs<Ellipse>("E"); region<Ellipse>("Ellipse", "E");
    def("Ellipse():", []() { return Ellipse(); });
    def("Ellipse():C", [](Circle const & c) { return Ellipse(c); });
    def("Ellipse():U", [](UnitVector3d const & c) { return Ellipse(c); });
    def("Ellipse():Ua", [](UnitVector3d const & c, Angle a) { return Ellipse(c, a); });
    def("Ellipse():UUa", [](UnitVector3d const & c, UnitVector3d const & d, Angle a) { return Ellipse(c, d, a); });
    def("Ellipse():Uaaa", [](UnitVector3d const & c, Angle a, Angle b, Angle o) { return Ellipse(c, a, b, o); });
    def("Ellipse():E", [](Ellipse const & e) { return Ellipse(e); });
    def("Ellipse::empty:", []() { return Ellipse::empty(); }); def("Ellipse::full:", []() { return Ellipse::full(); });
    SELF(Ellipse, "Ellipse.isEmpty:E", s.isEmpty()); SELF(Ellipse, "Ellipse.isFull:E", s.isFull()); SELF(Ellipse, "Ellipse.isGreatCircle:E", s.isGreatCircle()); SELF(Ellipse, "Ellipse.isCircle:E", s.isCircle());
    SELF(Ellipse, "Ellipse.getTransformMatrix:E", s.getTransformMatrix()); SELF(Ellipse, "Ellipse.getCenter:E", s.getCenter()); SELF(Ellipse, "Ellipse.getF1:E", s.getF1()); SELF(Ellipse, "Ellipse.getF2:E", s.getF2());
    SELF(Ellipse, "Ellipse.getAlpha:E", s.getAlpha()); SELF(Ellipse, "Ellipse.getBeta:E", s.getBeta()); SELF(Ellipse, "Ellipse.getGamma:E", s.getGamma());
    def("Ellipse.complement!:E", [](Ellipse c) { c.complement(); return c; }); def("Ellipse.complemented:E", [](Ellipse const & c) { return c.complemented(); });
    // compound regions
    region<UnionRegion>("UnionRegion", "J"); region<IntersectionRegion>("IntersectionRegion", "K");
    def("UnionRegion():XX", [](Region const & a, Region const & b) { return UnionRegion(a, b); });
    def("IntersectionRegion():XX", [](Region const & a, Region const & b) { return IntersectionRegion(a, b); });
    def("UnionRegion.cloneOperand:Ji", [](UnionRegion const & u, int i) { idx(2, i); return RP(u.getOperand(i).clone()); });
    def("IntersectionRegion.cloneOperand:Ki", [](IntersectionRegion const & u, int i) { idx(2, i); return RP(u.getOperand(i).clone()); });
    // range sets
    eqs<RangeSet>("S");
    def("RangeSet():", []() { return RangeSet(); });
    def("RangeSet():u", [](u64 a) { return RangeSet(a); });
    def("RangeSet():uu", [](u64 a, u64 b) { return RangeSet(a, b); });
    def("RangeSet():S", [](RangeSet const & r) { return RangeSet(r); });
    def("RangeSet.fromRanges:S", [](RangeSet const & r) { return RangeSet(r); });
    def("RangeSet.fromIntegers:uuu", [](u64 a, u64 b, u64 c) { RangeSet r; r.insert(a); r.insert(b); r.insert(c); return r; });
    def("RangeSet.insert!:Su", [](RangeSet r, u64 a) { r.insert(a); return r; });
    def("RangeSet.insert!:Suu", [](RangeSet r, u64 a, u64 b) { r.insert(a, b); return r; });
    def("RangeSet.erase!:Su", [](RangeSet r, u64 a) { r.erase(a); return r; });
    def("RangeSet.erase!:Suu", [](RangeSet r, u64 a, u64 b) { r.erase(a, b); return r; });
    def("RangeSet.complement!:S", [](RangeSet r) { r.complement(); return r; });
    SELF(RangeSet, "RangeSet.complemented:S", s.complemented()); SELF(RangeSet, "inv:S", s.complemented());
    M1(RangeSet, "RangeSet.intersection:SS", RangeSet const &, s.intersection(x)); M1(RangeSet, "RangeSet.union:SS", RangeSet const &, s.join(x));
    M1(RangeSet, "RangeSet.difference:SS", RangeSet const &, s.difference(x)); M1(RangeSet, "RangeSet.symmetricDifference:SS", RangeSet const &, s.symmetricDifference(x));
    M1(RangeSet, "&:SS", RangeSet const &, s & x); M1(RangeSet, "|:SS", RangeSet const &, s | x); M1(RangeSet, "-:SS", RangeSet const &, s - x); M1(RangeSet, "^:SS", RangeSet const &, s ^ x);
    def("&=!:SS", [](RangeSet r, RangeSet const & x) { r &= x; return r; }); def("|=!:SS", [](RangeSet r, RangeSet const & x) { r |= x; return r; });
    def("-=!:SS", [](RangeSet r, RangeSet const & x) { r -= x; return r; }); def("^=!:SS", [](RangeSet r, RangeSet const & x) { r ^= x; return r; });
    def("len:S", [](RangeSet const & s) { return (u64)s.size(); });
    def("[]:Si", [](RangeSet const & s, int i) { auto v = flat(s); idx(v.size() / 2, i); return std::make_pair(v[2 * i], v[2 * i + 1]); });
    SELF(RangeSet, "iter:S", Raw{rangesTok(s)}); SELF(RangeSet, "RangeSet.ranges:S", Raw{rangesTok(s)});
#define RQ(op) def("RangeSet." #op ":Su", [](RangeSet const & s, u64 a) { return s.op(a); }); def("RangeSet." #op ":Suu", [](RangeSet const & s, u64 a, u64 b) { return s.op(a, b); }); def("RangeSet." #op ":SS", [](RangeSet const & s, RangeSet const & b) { return s.op(b); });
    RQ(intersects) RQ(contains) RQ(isWithin) RQ(isDisjointFrom)
    def("in:Su", [](RangeSet const & s, u64 a) { return s.contains(a); }); def("in:SS", [](RangeSet const & s, RangeSet const & a) { return s.contains(a); });
    def("RangeSet.simplify!:So", [](RangeSet r, uint32_t n) { r.simplify(n); return r; }); def("RangeSet.simplified:So", [](RangeSet const & r, uint32_t n) { return r.simplified(n); });
    def("RangeSet.scale!:Su", [](RangeSet r, u64 n) { r.scale(n); return r; }); def("RangeSet.scaled:Su", [](RangeSet const & r, u64 n) { return r.scaled(n); });
    def("RangeSet.fill!:S", [](RangeSet r) { r.fill(); return r; }); def("RangeSet.clear!:S", [](RangeSet r) { r.clear(); return r; });
    SELF(RangeSet, "RangeSet.empty:S", s.empty()); SELF(RangeSet, "RangeSet.full:S", s.full()); SELF(RangeSet, "RangeSet.size:S", (u64)s.size()); SELF(RangeSet, "RangeSet.cardinality:S", s.cardinality()); SELF(RangeSet, "RangeSet.isValid:S", s.isValid());
    // pixelizations
    pixelization<HtmPixelization>("HtmPixelization", "H"); pixelization<Q3cPixelization>("Q3cPixelization", "Q"); pixelization<Mq3cPixelization>("Mq3cPixelization", "m");
    def("HtmPixelization::level:u", [](u64 i) { return HtmPixelization::level(i); }); def("HtmPixelization::triangle:h", [](u64 i) { return HtmPixelization::triangle(i); }); def("HtmPixelization::asString:h", [](u64 i) { return HtmPixelization::asString(i); });
    def("Mq3cPixelization::level:u", [](u64 i) { return Mq3cPixelization::level(i); }); def("Mq3cPixelization::quad:j", [](u64 i) { return Mq3cPixelization::quad(i); });
    def("Mq3cPixelization::neighborhood:j", [](u64 i) { return Mq3cPixelization::neighborhood(i); }); def("Mq3cPixelization::asString:j", [](u64 i) { return Mq3cPixelization::asString(i); });
    def("Q3cPixelization.quad:Qk", [](Q3cPixelization const & q, u64 i) { return q.quad(i); }); def("Q3cPixelization.neighborhood:Qk", [](Q3cPixelization const & q, u64 i) { return q.neighborhood(i); });
    // chunkers
    eqs<Chunker>("c");
    def("Chunker():kk", [](int a, int b) { return Chunker(a, b); });
    SELF(Chunker, "get.numStripes:c", s.getNumStripes()); SELF(Chunker, "get.numSubStripesPerStripe:c", s.getNumSubStripesPerStripe());
    M1(Chunker, "Chunker.getChunksIntersecting:cX", Region const &, s.getChunksIntersecting(x)); M1(Chunker, "Chunker.getSubChunksIntersecting:cX", Region const &, s.getSubChunksIntersecting(x));
    SELF(Chunker, "Chunker.getAllChunks:c", s.getAllChunks()); M1(Chunker, "Chunker.getAllSubChunks:ck", int, s.getAllSubChunks(x));
    def("Chunker.boxOf:ck", [](Chunker const & c, int i) { return c.getChunkBoundingBox(c.getStripe(i), c.getChunk(i, c.getStripe(i))); });
    def("Chunker.subBoxOf:ckr", [](Chunker const & c, int i, int k) { return c.getSubChunkBoundingBox(c.getStripe(i) * c.getNumSubStripesPerStripe() + k % c.getNumSubStripesPerStripe(), 0); });
    M1(Chunker, "Chunker.getStripe:ck", int, s.getStripe(x)); def("Chunker.getChunk:ckk", [](Chunker const & c, int a, int b) { return c.getChunk(a, b); });
    // free functions
    def("f.log2:u", [](u64 a) { return lsst::sphgeom::log2(a); });
    def("f.mortonIndex:ww", [](uint32_t a, uint32_t b) { return mortonIndex(a, b); });
    def("f.mortonIndexInverse:u", [](u64 a) { return mortonIndexInverse(a); });
    def("f.mortonToHilbert:uz", [](u64 a, int m) { return mortonToHilbert(a, m); }); def("f.hilbertToMorton:uz", [](u64 a, int m) { return hilbertToMorton(a, m); });
    def("f.hilbertIndex:wwz", [](uint32_t a, uint32_t b, int m) { return hilbertIndex(a, b, m); }); def("f.hilbertIndexInverse:uz", [](u64 a, int m) { return hilbertIndexInverse(a, m); });
    def("f.orientationExact:vvv", [](Vector3d const & a, Vector3d const & b, Vector3d const & c) { return orientationExact(a, b, c); });
    def("f.orientation:UUU", [](UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c) { return orientation(a, b, c); });
    def("f.orientationX:UU", [](UnitVector3d const & b, UnitVector3d const & c) { return orientationX(b, c); });
    def("f.orientationY:UU", [](UnitVector3d const & b, UnitVector3d const & c) { return orientationY(b, c); });
    def("f.orientationZ:UU", [](UnitVector3d const & b, UnitVector3d const & c) { return orientationZ(b, c); });
    def("f.getMinSquaredChordLength:vvvv", [](Vector3d const & v, Vector3d const & a, Vector3d const & b, Vector3d const & n) { return getMinSquaredChordLength(v, a, b, n); });
    def("f.getMaxSquaredChordLength:vvvv", [](Vector3d const & v, Vector3d const & a, Vector3d const & b, Vector3d const & n) { return getMaxSquaredChordLength(v, a, b, n); });
    def("f.getMinAngleToCircle:aa", [](Angle x, Angle c) { return getMinAngleToCircle(x, c); }); def("f.getMaxAngleToCircle:aa", [](Angle x, Angle c) { return getMaxAngleToCircle(x, c); });
    def("f.getWeightedCentroid:UUU", [](UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c) { return getWeightedCentroid(a, b, c); });
    def("f.invert:e", [](int r) { return invert(Relationship(r)); });
    for (char const * c : {"B", "C", "P", "E", "J", "K"}) def(Str("Region::decodeHex:") + c + "Y", [](Region const &, Str const & h) { return Region::decode(bytes("y:" + h)); });
    def("k.Box.TYPE_CODE:", []() { return (int)'b'; }); def("k.Circle.TYPE_CODE:", []() { return (int)'c'; });
    def("k.ConvexPolygon.TYPE_CODE:", []() { return (int)'p'; }); def("k.Ellipse.TYPE_CODE:", []() { return (int)'e'; });
    def("k.UnionRegion.TYPE_CODE:", []() { return (int)'u'; }); def("k.IntersectionRegion.TYPE_CODE:", []() { return (int)'i'; });
    def("k.HtmPixelization.MAX_LEVEL:", []() { return (int)HtmPixelization::MAX_LEVEL; });
    def("k.Q3cPixelization.MAX_LEVEL:", []() { return (int)Q3cPixelization::MAX_LEVEL; });
    def("k.Mq3cPixelization.MAX_LEVEL:", []() { return (int)Mq3cPixelization::MAX_LEVEL; });
    def("k.DISJOINT:", []() { return Relationship(DISJOINT); }); def("k.INTERSECTS:", []() { return Relationship(INTERSECTS); });
    def("k.CONTAINS:", []() { return Relationship(CONTAINS); }); def("k.WITHIN:", []() { return Relationship(WITHIN); });
}
int main(int, char ** v) {
    build();
    std::ifstream in(v[1]); std::ofstream out(v[2]); Str line;
    while (std::getline(in, line)) {
        auto p = cut(line, ' ', 0);
        auto f = F.find(p[0]);
        if (f == F.end()) { out << "?\n"; continue; }
        p.erase(p.begin());
        try { out << f->second(p) << "\n"; }
        catch (std::invalid_argument const &) { out << "!ValueError\n"; }
        catch (std::domain_error const &) { out << "!ValueError\n"; }
        catch (std::length_error const &) { out << "!ValueError\n"; }
        catch (std::out_of_range const &) { out << "!IndexError\n"; }
        catch (std::overflow_error const &) { out << "!OverflowError\n"; }
        catch (std::exception const &) { out << "!RuntimeError\n"; }
    }
    for (auto & f : F) std::cout << f.first << "\n";
    return 0;
}
