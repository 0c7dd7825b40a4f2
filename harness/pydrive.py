"""Drives lsst.sphgeom through Python and records histories for spec/TracePython.tla.

A history works on a store of numbered slots holding wrapped objects. Every event names the function called, the slots and
tokens it was given, the token of its result and the tokens of all slots afterwards; harness/pyoracle.cc adds what the C++
library answers for the same tokens. Tokens are exact (bit patterns of doubles, encodings of regions)."""
import copy, json, math, operator, pickle, random, re, struct, subprocess, sys
import numpy as np
import yaml
import lsst.sphgeom as sg

CLS = dict(a=sg.Angle, n=sg.NormalizedAngle, L=sg.LonLat, v=sg.Vector3d, U=sg.UnitVector3d, M=sg.Matrix3d, I=sg.Interval1d,
           A=sg.AngleInterval, N=sg.NormalizedAngleInterval, B=sg.Box, C=sg.Circle, P=sg.ConvexPolygon, E=sg.Ellipse,
           J=sg.UnionRegion, K=sg.IntersectionRegion, S=sg.RangeSet, H=sg.HtmPixelization, Q=sg.Q3cPixelization,
           m=sg.Mq3cPixelization, c=sg.Chunker)
CLS["3"] = sg.Box3d
CODE = {v: k for k, v in CLS.items()}
REGION = "BCPEJK"
TYPE = {ord("b"): "B", ord("c"): "C", ord("p"): "P", ord("e"): "E", ord("u"): "J", ord("i"): "K"}


def hx(d):
    d = float(d)
    return "nan" if d != d else struct.pack(">d", d).hex()


def ds(c, v):
    return c + ":" + ",".join(hx(x) for x in v)


def plain(b):
    """An encoded region with every NaN replaced by the same one (their sign and payload mean nothing)."""
    if b[0] in b"ui":
        out, i = b[:1], 1
        while i < len(b):
            n = struct.unpack_from("<Q", b, i)[0]
            out += b[i:i + 8] + plain(b[i + 8:i + 8 + n])
            i += 8 + n
        return out
    k = (len(b) - 1) // 8
    v = struct.unpack_from(f"<{k}d", b, 1)
    if b[:1] == b"b" and k == 4 and (v[0] != v[0] or v[1] != v[1]):  # a NaN makes an interval empty
        v = (math.nan, math.nan, *v[2:])
        b = b[:1] + struct.pack("<4d", *v)
    return b[:1] + b"".join(b[1 + 8 * i:9 + 8 * i] if x == x else struct.pack("<d", math.nan) for i, x in enumerate(v))


def answer(t):
    """The same for the regions in an answer of the library."""
    return re.sub(r"\b([Ry]):([0-9a-f]+)", lambda m: m[1] + ":" + plain(bytes.fromhex(m[2])).hex(), t)


def iv(i):
    a, b = i.getA(), i.getB()
    return [a, b] if isinstance(a, float) else [a.asRadians(), b.asRadians()]


def xyz(v):
    return [v.x(), v.y(), v.z()]


def tok(x, top=True):
    """The token of a Python value; its class must be exactly the one the token says."""
    t = type(x)
    c = CODE.get(t)
    if c is None:
        if x is None:
            return "0"
        if t in (bool, np.bool_):
            return "b:1" if x else "b:0"
        if isinstance(x, (int, np.integer)):
            return f"i:{int(x)}"
        if isinstance(x, (float, np.floating)):
            return ds("d", [x])
        if t is str:
            return "s:" + x
        if t is bytes:
            return "y:" + plain(x).hex()
        if t in (tuple, list) or t is np.ndarray:
            return "T[" + ";".join(tok(y) for y in x) + "]"
        return "?" + t.__name__
    if c in "an":
        return ds(c, [x.asRadians()])
    if c == "L":
        return ds(c, [x.getLon().asRadians(), x.getLat().asRadians()])
    if c in "vU":
        return ds(c, xyz(x))
    if c == "M":
        return ds(c, [y for r in range(3) for y in xyz(x.getRow(r))])
    if c in "IAN":
        return ds(c, iv(x))
    if c == "3":
        return ds(c, iv(x.x()) + iv(x.y()) + iv(x.z()))
    if c in REGION:
        b = x.encode()
        return ("R:" if TYPE.get(b[0]) == c else f"R{c}?:") + plain(b).hex()
    if c == "S":
        return "S:" + ",".join(f"{a}-{b}" for a, b in x.ranges())
    if c in "HQm":
        return f"{c}:{x.getLevel()}"
    return f"c:{x.numStripes},{x.numSubStripesPerStripe}"


OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge,
       "neg": operator.neg, "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
       "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv, "&": operator.and_,
       "|": operator.or_, "^": operator.xor, "&=": operator.iand, "|=": operator.ior, "^=": operator.ixor,
       "in": operator.contains, "len": len, "inv": operator.invert, "iter": lambda x: [y for y in x],
       "[]": lambda x, *i: x[i[0]] if len(i) == 1 else x[i]}
SPECIAL = {
    "ConvexPolygon()": lambda w: sg.ConvexPolygon(units(w) if isinstance(w, list) else w),
    "ConvexPolygon::convexHull": lambda w: sg.ConvexPolygon.convexHull(units(w)),
    "RangeSet.fromIntegers": lambda *i: sg.RangeSet(iter(i)),
}
for _n in ("Box", "Circle", "ConvexPolygon", "Ellipse", "UnionRegion", "IntersectionRegion"):
    SPECIAL[_n + ".containsArray"] = lambda r, w: [bool(y) for y in r.contains(np.array(w[0::2]), np.array(w[1::2]))]
    SPECIAL[_n + ".recode"] = lambda r: sg.Region.decode(r.encode())
    SPECIAL[_n + ".regions"] = lambda r: sg.Region.getRegions(r)
SPECIAL["Chunker.boxOf"] = lambda c, i: c.getChunkBoundingBox(c.getStripe(i), c.getChunk(i, c.getStripe(i)))
SPECIAL["Chunker.subBoxOf"] = lambda c, i, k: c.getSubChunkBoundingBox(c.getStripe(i) * c.numSubStripesPerStripe + k % c.numSubStripesPerStripe, 0)
SPECIAL["RangeSet.fromRanges"] = lambda s: sg.RangeSet(s.ranges())


SPECIAL["Region::decodeHex"] = lambda x, h: sg.Region.decode(bytes.fromhex(h))
CONSTS = [f"{c}.TYPE_CODE" for c in ("Box", "Circle", "ConvexPolygon", "Ellipse", "UnionRegion", "IntersectionRegion")] + \
         [f"{c}.MAX_LEVEL" for c in ("HtmPixelization", "Q3cPixelization", "Mq3cPixelization")] + ["DISJOINT", "INTERSECTS", "CONTAINS", "WITHIN"]
for _n in CONSTS:
    SPECIAL["k." + _n] = lambda n=_n: operator.attrgetter(n)(sg)


def units(w):
    return [sg.UnitVector3d(*w[i:i + 3]) for i in range(0, len(w), 3)]


def call(name, args):
    """Returns (result, replacement of args[0] or None)."""
    mut = name.endswith("!")
    name = name.rstrip("!")
    if name in SPECIAL:
        return SPECIAL[name](*args)
    if name.startswith("f."):
        return getattr(sg, name[2:])(*args)
    if name.startswith("get."):
        return getattr(args[0], name[4:])
    if name.endswith("()"):
        return getattr(sg, name[:-2])(*args)
    if "::" in name:
        c, m = name.split("::")
        return getattr(getattr(sg, c), m)(*args)
    if name in OPS:
        return OPS[name](*args)
    r = getattr(args[0], name.split(".")[1])(*args[1:])
    if mut:  # what the call gives back, when it gives something back, is the changed object
        if r is not None and tok(r) != tok(args[0]) and not isinstance(r, float):
            return "in place call returned another value"
        return args[0]
    return r


class Gen:
    """Primitive arguments."""

    def __init__(self, rng):
        self.g = rng
        self.u = [rng.choice([rng.getrandbits(rng.randrange(1, 65)), rng.randrange(12), 2 ** 64 - 1 - rng.randrange(6),
                              2 ** 63 + rng.randrange(-2, 3)]) for _ in range(6)]

    def make(self, c, args):
        g = self.g
        if c == "d":
            return g.choice([g.uniform(-2, 2), g.gauss(0, 1), float(g.randrange(-3, 4)), math.pi * g.randrange(-4, 5) / 2,
                             g.uniform(-7, 7), 1e-9 * g.random(), 10.0 ** g.uniform(-12, 5),
                             g.choice([0.0, -0.0, float("nan"), float("inf"), float("-inf")]) if g.random() < 0.3 else 0.5])
        if c == "q":
            return g.choice([g.uniform(0, 4), g.uniform(0, 0.1), 0.0, 4.0, -1.0, 5.0, 1e-9 * g.random(), 2.0])
        if c == "x":  # vector components
            return g.choice([g.gauss(0, 1), g.gauss(0, 1), g.gauss(0, 1), float(g.choice([-1, 0, 1, 1]))])
        if c == "t":  # degrees, valid as a longitude and as a latitude
            return g.choice([g.uniform(-90, 90), float(g.randrange(-90, 91)), 45.0 * g.randrange(-2, 3)])
        if c == "g":
            return math.radians(self.make("t", args))
        if c == "G":
            return [self.make("g", args) for _ in range(2 * g.randrange(1, 4))]
        if c == "W":
            k = g.choice([3, 3, 4, 5, 8, 12])
            if g.random() < 0.1:
                k = g.randrange(0, 3)
            d = [g.gauss(0, 1) for _ in range(3)]
            s = g.choice([0.5, 1e-2, 1e-5, 3.0])
            return [x + s * g.gauss(0, 1) for _ in range(k) for x in d]
        if c == "i":
            return g.randrange(-5, 5)
        if c == "r":
            return g.choice([0, 1, 2, 3, 5, 20])
        if c == "o":
            return g.randrange(0, 70)
        if c == "e":
            return g.randrange(8)
        if c == "Y":  # the bytes of a region, damaged
            return self.damaged(args)
        if c == "u":
            return g.choice(self.u + [0, 0, 1, 2])
        if c == "w":
            return g.getrandbits(g.randrange(1, 33))
        if c == "z":
            return g.randrange(0, 33)
        if c == "l":
            return g.randrange(0, 7) if g.random() < 0.9 else g.randrange(-1, 33)
        if c == "h":
            return g.randrange(8 * 4 ** (k := g.randrange(0, 8)), 16 * 4 ** k) if g.random() < 0.9 else g.randrange(0, 40)
        if c == "j":
            return g.randrange(10 * 4 ** (k := g.randrange(0, 8)), 16 * 4 ** k) if g.random() < 0.9 else g.randrange(0, 80)
        if c == "k":
            x = args[0] if args else None
            if isinstance(x, sg.Chunker):
                ids = x.getAllChunks()
                if len(args) == 2:
                    return x.getStripe(args[1])
                return g.choice(ids)
            if x is None or isinstance(x, int):
                return g.randrange(1, 12)
            f = list(x.universe())
            i = g.randrange(f[0][0], f[0][1]) if f[0][1] else g.randrange(f[0][0], 2 ** 64)
            return i if g.random() < 0.95 else g.randrange(0, 3 * i + 5)
        raise KeyError(c)

    def damaged(self, args):
        g = self.g
        b = bytearray(args[0].encode())
        for _ in range(g.randrange(3)):
            k = g.randrange(7)
            if k == 0:
                b = b[:g.randrange(len(b) + 1)]
            elif k == 1:
                b += bytes(g.randrange(1, 25))
            elif k == 2 and b:
                b[0] = g.choice(b"bcepuiBx\0\xff")
            elif k == 3 and len(b) > 9:
                b[1 + g.randrange(8)] = g.choice([0, 1, 255, 128, 25])
            elif k == 4:
                b = bytearray(g.choice(b"ui").to_bytes(1, "little") + len(b).to_bytes(8, "little") + b)
            elif k == 5:
                b = b[:1] + b[1:] * 2
            elif b:
                del b[g.randrange(len(b))]
        return bytes(b).hex()


# what can be called: "<name> <signatures>", "!" marks calls that change their first argument
TABLE = """
Angle() - d a n
Angle::nan -
Angle::fromDegrees d
Angle::fromRadians d
Angle.isNormalized a
Angle.asDegrees a
Angle.asRadians a
Angle.isNan a
NormalizedAngle() - d n a LL vv
NormalizedAngle::nan -
NormalizedAngle::fromDegrees d
NormalizedAngle::fromRadians d
NormalizedAngle::between nn
NormalizedAngle::center nn
NormalizedAngle.getAngleTo nn
NormalizedAngle.asDegrees n
NormalizedAngle.asRadians n
NormalizedAngle.isNan n
== aa nn LL vv UU MM II AA NN Id Aa Nn 33 3v BB BL CC PP EE SS HH QQ mm cc
!= aa nn LL vv UU MM II AA NN Id Aa Nn 33 3v BB BL CC PP EE SS HH QQ mm cc
< aa na
> aa na
<= aa na
>= aa na
neg a n v U
+ aa na vv Uv MM
- aa na vv Uv MM SS
* ad nd da dn vd Ud Mv MM
/ ad nd aa na vd Ud
+=! aa vv
-=! aa vv SS
*=! ad vd
/=! ad vd
LonLat() - L na v
LonLat::fromDegrees tt
LonLat::fromRadians gg
LonLat::latitudeOf v
LonLat::longitudeOf v
LonLat.getLon L
LonLat.getLat L
len L v U 3 M S
[] Li vi Ui 3i Mi Mii Si
iter L v U 3 S
Vector3d() - ddd v U
Vector3d.x v
Vector3d.y v
Vector3d.z v
Vector3d.getSquaredNorm v
Vector3d.getNorm v
Vector3d.isZero v
Vector3d.isNormalized v
Vector3d.normalize! v
Vector3d.dot vv
Vector3d.cross vv
Vector3d.cwiseProduct vv
Vector3d.rotatedAround vUa
UnitVector3d() - U v xxx L aa
UnitVector3d::orthogonalTo v vv n
UnitVector3d::northFrom v
UnitVector3d::X -
UnitVector3d::Y -
UnitVector3d::Z -
UnitVector3d.x U
UnitVector3d.y U
UnitVector3d.z U
UnitVector3d.dot Uv
UnitVector3d.cross Uv
UnitVector3d.robustCross UU
UnitVector3d.cwiseProduct Uv
UnitVector3d.rotatedAround UUa
Matrix3d() - ddddddddd v d M
Matrix3d.getRow Mi
Matrix3d.getColumn Mi
Matrix3d.inner MM
Matrix3d.getSquaredNorm M
Matrix3d.getNorm M
Matrix3d.cwiseProduct MM
Matrix3d.transpose M
Matrix3d.inverse M
Interval1d.isFull I
AngleInterval::fromDegrees tt
AngleInterval::fromRadians gg
NormalizedAngleInterval::fromDegrees tt
NormalizedAngleInterval::fromRadians gg
NormalizedAngleInterval() a aa
NormalizedAngleInterval.isFull N
NormalizedAngleInterval.wraps N
Box3d() - v vv vddd III 3
Box3d::empty -
Box3d::full -
Box3d::aroundUnitSphere -
Box3d.x 3
Box3d.y 3
Box3d.z 3
Box3d.isEmpty 3
Box3d.isFull 3
Box3d.getCenter 3
Box3d.getWidth 3
Box3d.getHeight 3
Box3d.getDepth 3
Box3d.contains 3ddd
Box3d.dilateBy! 3ddd
Box3d.dilatedBy 3ddd
Box3d.erodeBy! 3ddd
Box3d.erodedBy 3ddd
Box() - L LL Laa NA B
Box::fromDegrees tttt
Box::fromRadians gggg
Box::empty -
Box::full -
Box::halfWidthForCircle aa
Box::allLongitudes -
Box::allLatitudes -
Box.getLon B
Box.getLat B
Box.isEmpty B
Box.isFull B
Box.getCenter B
Box.getWidth B
Box.getHeight B
Box.getArea B
Box.dilateBy! Baa
Box.dilatedBy Baa
Box.erodeBy! Baa
Box.erodedBy Baa
Circle() - U Ua Uq C
Circle::empty -
Circle::full -
Circle::squaredChordLengthFor a
Circle::openingAngleFor q
Circle.isEmpty C
Circle.isFull C
Circle.getCenter C
Circle.getSquaredChordLength C
Circle.getOpeningAngle C
Circle.getArea C
Circle.complement! C
Circle.complemented C
ConvexPolygon() W P
ConvexPolygon::convexHull W
ConvexPolygon.getVertices P
ConvexPolygon.getCentroid P
ConvexPolygon.contains PX
ConvexPolygon.isDisjointFrom PX
ConvexPolygon.intersects PX
ConvexPolygon.isWithin PX
Ellipse() - C U Ua UUa Uaaa E
Ellipse::empty -
Ellipse::full -
Ellipse.isEmpty E
Ellipse.isFull E
Ellipse.isGreatCircle E
Ellipse.isCircle E
Ellipse.getTransformMatrix E
Ellipse.getCenter E
Ellipse.getF1 E
Ellipse.getF2 E
Ellipse.getAlpha E
Ellipse.getBeta E
Ellipse.getGamma E
Ellipse.complement! E
Ellipse.complemented E
UnionRegion() XX
IntersectionRegion() XX
UnionRegion.cloneOperand Ji
IntersectionRegion.cloneOperand Ki
RangeSet() - u uu S
RangeSet.fromRanges S
RangeSet.fromIntegers uuu
RangeSet.insert! Su Suu
RangeSet.erase! Su Suu
RangeSet.complement! S
RangeSet.complemented S
inv S
RangeSet.intersection SS
RangeSet.union SS
RangeSet.difference SS
RangeSet.symmetricDifference SS
& SS
| SS
^ SS
&=! SS
|=! SS
^=! SS
RangeSet.ranges S
RangeSet.intersects Su Suu SS
RangeSet.contains Su Suu SS
RangeSet.isWithin Su Suu SS
RangeSet.isDisjointFrom Su Suu SS
in Su SS
RangeSet.simplify! So
RangeSet.simplified So
RangeSet.scale! Su
RangeSet.scaled Su
RangeSet.fill! S
RangeSet.clear! S
RangeSet.empty S
RangeSet.full S
RangeSet.size S
RangeSet.cardinality S
RangeSet.isValid S
HtmPixelization::level u
HtmPixelization::triangle h
HtmPixelization::asString h
Mq3cPixelization::level u
Mq3cPixelization::quad j
Mq3cPixelization::neighborhood j
Mq3cPixelization::asString j
Q3cPixelization.quad Qk
Q3cPixelization.neighborhood Qk
Chunker() kk
get.numStripes c
get.numSubStripesPerStripe c
Chunker.getChunksIntersecting cX
Chunker.getSubChunksIntersecting cX
Chunker.getAllChunks c
Chunker.getAllSubChunks ck
Chunker.getStripe ck
Chunker.getChunk ckk
Chunker.boxOf ck
Chunker.subBoxOf ckr
f.log2 u
f.mortonIndex ww
f.mortonIndexInverse u
f.mortonToHilbert uz
f.hilbertToMorton uz
f.hilbertIndex wwz
f.hilbertIndexInverse uz
f.orientationExact vvv
f.orientation UUU
f.orientationX UU
f.orientationY UU
f.orientationZ UU
f.getMinSquaredChordLength vvvv
f.getMaxSquaredChordLength vvvv
f.getMinAngleToCircle aa
f.getMaxAngleToCircle aa
f.getWeightedCentroid UUU
f.invert e
Region::decodeHex BY CY PY EY JY KY
"""
CALLS = []


def _table():
    out = [l.split() for l in TABLE.strip().splitlines()]
    rel = ["contains", "isDisjointFrom", "intersects", "isWithin"]
    setop = ["clipTo!", "clippedTo", "expandTo!", "expandedTo"]
    grow = ["dilateBy!", "dilatedBy", "erodeBy!", "erodedBy"]
    for n, c, s in (("Interval1d", "I", "d"), ("AngleInterval", "A", "a"), ("NormalizedAngleInterval", "N", "n")):
        for m in ("getA", "getB", "isEmpty", "getCenter", "getSize"):
            out.append([f"{n}.{m}", c])
        for m in rel + ["relate"] + setop:
            out.append([f"{n}.{m}", c + s, c + c])
        for m in grow:
            out.append([f"{n}.{m}", c + s])
        out += [[f"{n}()", "-", s, s + s, c], [n + "::empty", "-"], [n + "::full", "-"], ["in", c + s, c + c]]
    for m in rel + ["relate"] + setop:
        out.append(["Box3d." + m, "3v", "33"])
        out.append(["Box." + m, "BL", *(["BB"] if m != "relate" else [])])
        if m != "relate":
            out.append(["Circle." + m, "CU", "CC"])
    out += [["in", "3v", "33", "BL", "BB", "CC"]]
    for m in grow:
        out += [["Box3d." + m, "3d"], ["Box." + m, "Ba"], ["Circle." + m, "Ca"]]
    for c in REGION:
        n = CLS[c].__name__
        for m in ("clone", "getBoundingBox", "getBoundingBox3d", "getBoundingCircle", "encode", "recode", "regions"):
            out.append([f"{n}.{m}", c])
        out += [[n + ".contains", c + "U", c + "xxx", c + "gg"], ["in", c + "U"], [n + ".containsArray", c + "G"],
                [n + ".relate", c + "X"]]
    for c in "HQm":
        n = CLS[c].__name__
        out += [[n + "()", "l", c], [n + ".getLevel", c], [n + ".universe", c], [n + ".pixel", c + "k"],
                [n + ".index", c + "U"], [n + ".toString", c + "k"], [n + ".envelope", c + "X", c + "Xr"],
                [n + ".interior", c + "X", c + "Xr"]]
    out += [["k." + k, "-"] for k in CONSTS]
    seen = set()
    for n, *sigs in out:
        for s in sigs:
            s = s.replace("-", "")
            if (n, s) not in seen:
                seen.add((n, s))
                CALLS.append((n, s))


_table()


class History:
    SLOTS = 7

    def __init__(self, g, oracle, kind, used):
        self.g, self.oracle, self.gen = g, oracle, Gen(g)
        self.obj = [None] * self.SLOTS
        self.ev = []
        self.used = used

    def post(self):
        return [tok(o) for o in self.obj]

    def fits(self, i, c):
        t = CODE.get(type(self.obj[i]))
        return t is not None and (t == c or (c == "X" and t in REGION) or (c == "a" and t == "n") or (c == "v" and t == "U")
                                  or (c == "p" and t in "HQm"))

    def ask(self, name, sig, args):
        """Index into the oracle's answers."""
        self.oracle.append(" ".join([f"{name}:{sig}", *args]))
        return len(self.oracle) - 1

    def event(self, name, sig, into=None, guard=(), depth=0):
        """Calls a function, creating missing arguments first. Returns the slot of the result or None."""
        g = self.g
        src, args = [], []
        own = set(guard)
        mut = name.endswith("!")
        for pos, c in enumerate(sig):
            if c in CLS or c in "Xp":
                cand = [i for i in range(self.SLOTS) if self.fits(i, c)]
                if pos == 0 or name.endswith("()"):  # these classes pick the function called: no conversions
                    cand = [i for i in cand if c in "Xp" or CODE[type(self.obj[i])] == c]
                if cand and g.random() < 0.8:
                    i = g.choice(cand)
                else:
                    i = self.create(c, own, depth + 1)
                    if i is None:
                        return None
                own.add(i)
                src.append(i + 1)
                args.append(self.obj[i])
            else:
                src.append(0)
                args.append(self.gen.make(c, args))
        if not self.sane(name, sig, args):
            return None
        toks = [("T[" + ";".join(tok(float(y)) for y in x) + "]") if isinstance(x, list) else tok(x) for x in args]
        try:
            r = call(name, args)
            got = tok(r)
        except Exception as e:
            r, got = None, "!" + type(e).__name__
        w = self.ask(name, sig, toks)
        dst, k = 0, f"{name}:{sig}"
        if got[0] != "!":
            if mut:
                dst = src[0]
            elif CODE.get(type(r)):
                dst = into + 1 if into is not None else g.randrange(self.SLOTS) + 1 if g.random() < 0.5 else 0
        if dst:
            self.obj[dst - 1] = r  # in-place operators may return another object
        self.used[k] = self.used.get(k, 0) + 1
        self.ev.append(dict(op="call", f=k, src=src, args=toks, got=got, want=w, dst=dst, fail=got[0] == "!", post=self.post()))
        return dst - 1 if dst else None

    def sane(self, name, sig, args):
        """Keeps out of calls that are slow or outside their documented domain."""
        f = name.split(".")[-1].rstrip("!")
        if f in ("envelope", "interior") and args[0].getLevel() > 7:
            return False
        if name.startswith("Chunker.get") and any(isinstance(a, sg.Chunker) and a.numStripes > 30 for a in args):
            return False
        if f == "getSubChunksIntersecting" and args[0].numStripes * args[0].numSubStripesPerStripe > 40:
            return False
        if name in ("f.hilbertIndex", "f.mortonToHilbert", "f.hilbertToMorton", "f.hilbertIndexInverse"):
            m = args[-1]
            if name == "f.hilbertIndex":
                args[0] &= (1 << m) - 1
                args[1] &= (1 << m) - 1
            else:
                args[0] &= (1 << (2 * m)) - 1
        if name.startswith("f.orientationExact"):  # finite, moderate components
            return all(abs(x) < 1e6 and (x == 0 or abs(x) > 1e-6) for v in args for x in xyz(v))
        if f in ("expandTo", "expandedTo") and isinstance(args[1], (sg.Vector3d, sg.UnitVector3d, sg.LonLat)):
            return not any(x.isNan() if isinstance(x, (sg.Angle, sg.NormalizedAngle)) else x != x for x in args[1])  # not a point
        if name in ("UnionRegion()", "IntersectionRegion()") and sum(len(a.encode()) for a in args) > 2000:
            return False
        return True

    def create(self, c, guard, depth):
        g = self.g
        if c == "X":
            c = g.choice("BBCCPPEJK" if depth < 3 else "BCPE")
        if c == "p":
            c = g.choice("HQm")
        n = CLS[c].__name__
        ways = [(a, s) for a, s in CALLS if (a == n + "()" or a.startswith(n + "::")) and c not in s]
        ways = [w for w in ways if RESULT.get(w, c) == c]
        simple = [w for w in ways if w[1] and not any(x in CLS or x in "Xp" for x in w[1])]
        if depth > 3 and simple:
            ways = simple
        for _ in range(20):
            a, s = g.choice(ways)
            if a.endswith(("::empty", "::full", "::nan")) and g.random() < 0.6 or (not s and g.random() < 0.6):
                continue
            free = [i for i in range(self.SLOTS) if i not in guard]
            if not free:
                return None
            i = g.choice(free)
            r = self.event(a, s, i, set(guard) | {i}, depth)
            if r is not None:
                return r
        return None

    def copy(self):
        g = self.g
        full = [i for i in range(self.SLOTS) if self.obj[i] is not None]
        if not full:
            return
        i, j = g.choice(full), g.randrange(self.SLOTS)
        x = self.obj[i]
        c = CODE[type(x)]
        ways = [f"pickle{p}" for p in range(2, 6)] + ["copy", "deepcopy", "list"]
        if c in REGION + "HQm":
            ways += ["yaml", "yaml", "yamlfull", "yamlsafe", "yamlunsafe", "yamlc", "yamllist"]
        if c in REGION:
            ways += ["clone", "cbase"]
        how = g.choice(ways)
        try:
            y = COPY[how](x)
            got = tok(y)
        except Exception as e:
            y, got = None, "!" + type(e).__name__
        t = tok(x)
        eq = ne = "b:1"
        w = -1
        if c not in "JK":
            try:
                eq, ne = tok(x == y), tok(not (x != y))
            except Exception as e:
                eq = "!" + type(e).__name__
            w = self.ask("==", c + c, [t, t])
        alias = y is x and how not in ("copy",)
        if y is not None:
            self.obj[j] = y
        self.used[how] = self.used.get(how, 0) + 1
        self.ev.append(dict(op="copy", f=how, src=[i + 1], args=[t], got=got, want=w, dst=j + 1 if y is not None else 0,
                            fail=got[0] == "!", eq=eq, ne=ne, alias=alias, post=self.post()))


def _yaml(loader, dumper=None):
    def f(x):
        return yaml.load(yaml.dump(x) if dumper is None else yaml.dump(x, Dumper=dumper), Loader=loader)
    return f


COPY = {f"pickle{p}": (lambda x, p=p: pickle.loads(pickle.dumps(x, p))) for p in range(6)}
COPY.update(copy=copy.copy, deepcopy=copy.deepcopy, list=lambda x: pickle.loads(pickle.dumps([x, {"k": x}]))[1]["k"],
            yaml=_yaml(yaml.Loader), yamlfull=_yaml(yaml.FullLoader), yamlsafe=_yaml(yaml.SafeLoader), yamlunsafe=_yaml(yaml.UnsafeLoader),
            yamlc=_yaml(getattr(yaml, "CLoader", yaml.Loader)),
            yamllist=lambda x: yaml.load(yaml.dump({"a": [x, x]}), Loader=yaml.FullLoader)["a"][1],
            clone=lambda x: x.clone(), cbase=lambda x: type(x)(x) if not isinstance(x, (sg.UnionRegion, sg.IntersectionRegion)) else type(x)(x.cloneOperand(0), x.cloneOperand(1)))
RESULT = {("LonLat::latitudeOf", "v"): "a", ("LonLat::longitudeOf", "v"): "n", ("Box::halfWidthForCircle", "aa"): "a",
          ("Box::allLongitudes", ""): "N", ("Box::allLatitudes", ""): "A", ("Circle::squaredChordLengthFor", "a"): "d",
          ("Circle::openingAngleFor", "q"): "a"}
for _c, _n in (("H", "HtmPixelization"), ("m", "Mq3cPixelization")):
    for _s in "uhj":
        for _m in ("level", "triangle", "asString", "quad", "neighborhood"):
            RESULT[(f"{_n}::{_m}", _s)] = "x"


def main():
    out, seed, n, length, exe = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    g = random.Random(seed)
    oracle, hists, used = [], [], {}
    groups = ["an", "anL", "LvUa", "vUM", "I3v", "AaNn", "NABLna", "BCPEU", "CUa", "ECUa", "PU", "BCPEJK", "BCJKU", "S", "S", "S", "HQmBCPU", "HQmU", "cBC",
              "BLNA", "w"]
    np.seterr(all="ignore")
    for i in range(n):
        kind = groups[i % len(groups)]
        h = History(g, oracle, kind, used)
        # calls that only involve the classes of this history
        mine = [c for c in CALLS if all(x not in CLS or x in kind for x in c[1]) and
                (any(x in kind for x in c[1] if x in CLS) or any(c[0].startswith(CLS[k].__name__ + e) for k in kind if k in CLS for e in ("(", ":", ".from")))]
        if kind == "w":
            mine = [c for c in CALLS if c[0].startswith(("f.", "k.", "Htm", "Mq3c", "Q3c", "Circle::", "Chunker"))]
        for _ in range(length):
            if g.random() < 0.22:
                h.copy()
                continue
            pick = min((g.choice(mine) for _ in range(3)), key=lambda c: used.get(f"{c[0]}:{c[1]}", 0))
            h.event(*pick)
        hists.append(h.ev)
    calls, ans = out + ".calls", out + ".answers"
    with open(calls, "w") as fh:
        fh.write("\n".join(oracle) + "\n")
    p = subprocess.run([exe, calls, ans], stdout=subprocess.PIPE, text=True)
    if p.returncode:
        print("ORACLE FAILED", p.returncode)
        sys.exit(3)
    with open(ans) as fh:
        answers = [answer(a) for a in fh.read().split("\n")]
    bad = [oracle[i] for i, a in enumerate(answers[:len(oracle)]) if a == "?"]
    if bad or len(answers) < len(oracle):
        print("ORACLE LACKS", sorted({b.split(" ")[0] for b in bad})[:20])
        sys.exit(3)
    with open(out, "w") as fh:
        for ev in hists:
            # tokens become small numbers: equal tokens, equal numbers
            names, table = {}, []

            def num(t):
                if t not in names:
                    names[t] = len(names) + 1
                    table.append(t)
                return names[t]
            num("0")
            es = []
            for e in ev:
                want = answers[e["want"]] if e["want"] >= 0 else "b:1"
                es.append(dict(op=e["op"], f=e["f"], src=e["src"], args=[num(t) for t in e["args"]], got=num(e["got"]), want=num(want),
                               dst=e["dst"], fail=e["fail"], eq=num(e.get("eq", "0")), ne=num(e.get("ne", "0")), alias=e.get("alias", False),
                               post=[num(t) for t in e["post"]]))
            fh.write(json.dumps(dict(ev=es, tok=[t[:300] for t in table])) + "\n")
    unused = [f"{a}:{s}" for a, s in CALLS if f"{a}:{s}" not in used]
    print("CALLED", sum(used.values()), "DISTINCT", len(used), "UNUSED", len(unused), " ".join(unused[:60]))


if __name__ == "__main__":
    main()
