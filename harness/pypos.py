"""IVOA POS texts: replays the texts enumerated by spec/MCPos.tla, and records round trips for spec/TracePos.tla."""
import math, random, re, sys
from fractions import Fraction
import json
import lsst.sphgeom as sg

WORD = {1: ["CIRCLE"], 2: ["RANGE"], 3: ["POLYGON"], 4: ["BOX", "CIRCLES", "XCIRCLE"], 5: ["ELLIPSE", "RANGES", "RANGE,"], 6: ["", "12", "POLYGON:"], 7: ["0", "()", "CIRCLERANGE"]}


def spell(g, x):
    if x == 100001:
        return g.choice(["+Inf", "inf", "Inf", "+inf", "Infinity"])
    if x == -100001:
        return g.choice(["-Inf", "-inf", "-Infinity"])
    if x == 100002:
        return g.choice(["NaN", "nan"])
    if x == 100003:
        return g.choice(["abc", "1.2.3", "--3", "1e", "3d", "12,", "N", "+"])
    s = [f"{x}", f"{x}.0", f"{x}.", f"{x}e0", f"{x / 10}e1" if float(f"{x / 10}e1") == x else f"{x}", f"{x:+d}", f"{x}.000000"]
    return g.choice(s)


def text(g, shape, v):
    gap = lambda: g.choice([" ", " ", " ", "  ", "\t", "\n", " \t "])
    t = g.choice(WORD[shape])
    for x in v:
        t += gap() + spell(g, x)
    return g.choice(["", "", " ", "\t "]) + t + g.choice(["", "", " ", "\n"])


def vec(lon, lat):
    a, b = math.radians(lon), math.radians(lat)
    return (math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b))


def far(u, w):
    return math.dist((u.x(), u.y(), u.z()), w) > 1e-12


def compare(want, got):
    """None when the region (or the exception) is what the specification says."""
    if want[0] == 0:
        return None if isinstance(got, ValueError) else f"accepted as {got}" if not isinstance(got, Exception) else f"raised {got!r}"
    if want[0] == 1:
        return None if not isinstance(got, Exception) or isinstance(got, (ValueError, RuntimeError)) else f"raised {got!r}"
    if isinstance(got, Exception):
        return f"refused: {got!r}"
    if want[0] == 2:
        if type(got) is not sg.Circle:
            return f"is {got}"
        if far(got.getCenter(), vec(want[1], want[2])):
            return f"centre {got}"
        r = want[3]
        if r < 0:
            return None if got.isEmpty() else f"not empty {got}"
        if r >= 180:
            return None if got.isFull() else f"not full {got}"
        return None if abs(got.getOpeningAngle().asDegrees() - r) < 1e-10 and not got.isFull() and not got.isEmpty() else f"radius {got}"
    if want[0] == 5 or want[0] == 3:
        if type(got) is not sg.Box:
            return f"is {got}"
        if want[0] == 5:
            return None if got.isEmpty() else f"not empty {got}"
        a, b, c, d = want[1:]
        if got.isEmpty():
            return f"is empty {got}"
        lo, la = got.getLon(), got.getLat()
        if max(abs(la.getA().asDegrees() - c), abs(la.getB().asDegrees() - d)) > 1e-10:
            return f"latitudes {got}"
        if (a, b) in ((0, 360),):
            return None if lo.isFull() else f"not all longitudes {got}"
        dl = lambda x, y: abs((x - y + 180) % 360 - 180)
        if max(dl(lo.getA().asDegrees(), a), dl(lo.getB().asDegrees(), b)) > 1e-10:
            return f"longitudes {got}"
        size = 360 if a % 360 == b % 360 and a != b else (b - a) % 360
        if size in (0, 360) and (a, b) != (a, a):
            return None  # 360 and 0 are the same end
        return None if abs(lo.getSize().asDegrees() - size) < 1e-10 else f"width {got}"
    if type(got) is not sg.ConvexPolygon:
        return f"is {got}"
    w = [vec(*want[i:i + 2]) for i in range(1, len(want), 2)]
    vs = list(got.getVertices())
    if len(vs) != len(w):
        return f"{len(vs)} vertices {got}"
    return None if all(any(not far(u, p) for u in vs) for p in w) else f"vertices {got}"


def replay(path, seed, reps):
    g = random.Random(seed)
    n = bad = 0
    kinds = {}
    with open(path) as fh:
        for line in fh:
            if not line.startswith('"@'):
                continue
            s = line.strip().strip('"')[1:].replace("<<", "[").replace(">>", "]")
            shape, v, want = json.loads(s)
            for _ in range(reps):
                t = text(g, shape, v)
                try:
                    got = sg.Region.from_ivoa_pos(t)
                except Exception as e:
                    got = e
                n += 1
                w = compare(want, got)
                if w:
                    bad += 1
                    if bad < 50:
                        print("MISMATCH", repr(t), want, w)
            k = ("error", "unspecified", "circle", "range", "polygon", "empty")[want[0]]
            kinds[k] = kinds.get(k, 0) + 1
    print(f"REPLAYED {n} MISMATCHES {bad}", *[f"{k}={c}" for k, c in sorted(kinds.items())])


def big(x):
    x = int(x)
    r, m = [0 if x == 0 else 1 if x > 0 else -1], abs(x)
    while m:
        r.append(m & 32767)
        m >>= 15
    return r


def fix(v, p=60):
    return big(Fraction(v) * 2 ** p)


def vecj(u):
    return [fix(u.x(), 75), fix(u.y(), 75), fix(u.z(), 75)]


def desc(r):
    if isinstance(r, Exception):
        return dict(c="!" + type(r).__name__)
    if type(r) is sg.Box:
        if r.isEmpty():
            return dict(c="box", empty=True, full=False)
        lo, la = r.getLon(), r.getLat()
        return dict(c="box", empty=False, full=bool(lo.isFull()), a=fix(lo.getA().asRadians()), b=fix(lo.getB().asRadians()),
                    w=fix(lo.getSize().asRadians()), s=fix(la.getA().asRadians()), n=fix(la.getB().asRadians()))
    if type(r) is sg.Circle:
        return dict(c="circle", empty=bool(r.isEmpty()), full=bool(r.isFull()), m=vecj(r.getCenter()),
                    r=fix(r.getOpeningAngle().asRadians()))
    if type(r) is sg.ConvexPolygon:
        return dict(c="polygon", v=[vecj(u) for u in r.getVertices()])
    return dict(c="other")


def unit(g):
    k = g.random()
    if k < 0.1:
        return g.choice([sg.UnitVector3d.X(), sg.UnitVector3d.Y(), sg.UnitVector3d.Z(), -sg.UnitVector3d.Z(), -sg.UnitVector3d.X(), -sg.UnitVector3d.Y()])
    if k < 0.2:
        return sg.UnitVector3d(g.gauss(0, 1e-9), g.gauss(0, 1e-9), g.choice([-1.0, 1.0]))
    if k < 0.3:
        return sg.UnitVector3d(1.0, -10.0 ** g.uniform(-17, -5), g.choice([0, g.gauss(0, 1)]))
    return sg.UnitVector3d(g.gauss(0, 1), g.gauss(0, 1), g.gauss(0, 1))


def angle(g, top):
    return g.choice([g.uniform(0, top), top * g.randrange(13) / 12, top * 10.0 ** g.uniform(-15, 0)])


def region(g):
    k = g.randrange(9)
    if k < 3:
        if g.random() < 0.05:
            return g.choice([sg.Box.empty(), sg.Box.full()])
        while True:
            a, b = angle(g, 2 * math.pi), angle(g, 2 * math.pi)
            if g.random() < 0.3:
                b = a + g.choice([0, 10.0 ** g.uniform(-11, 0)])
            lat = sorted([angle(g, math.pi) - math.pi / 2, angle(g, math.pi) - math.pi / 2])
            lon = sg.NormalizedAngleInterval(sg.Angle(a), sg.Angle(b))
            if g.random() < 0.1:
                lon = sg.NormalizedAngleInterval.full()
            if lon.isFull() or lon.getSize().asRadians() < 2 * math.pi - 1e-11:  # nearly all longitudes may round to none
                return sg.Box(lon, sg.AngleInterval(sg.Angle(lat[0]), sg.Angle(lat[1])))
    if k < 6:
        if g.random() < 0.05:
            return g.choice([sg.Circle.empty(), sg.Circle.full(), sg.Circle(unit(g), sg.Angle(-1.0)), sg.Circle(unit(g), sg.Angle(4.0))])
        return sg.Circle(unit(g), sg.Angle(angle(g, math.pi))) if g.random() < 0.8 else sg.Circle(unit(g), g.choice([g.uniform(0, 4), 10.0 ** g.uniform(-20, 0)]))
    if k < 8:
        c = unit(g)
        n = g.choice([3, 3, 4, 5, 6, 9, 20])
        rad = g.choice([g.uniform(0.01, 1.4), 10.0 ** g.uniform(-5, 0)])
        x = sg.UnitVector3d.orthogonalTo(c)
        p = sg.UnitVector3d(x.rotatedAround(c, sg.Angle(g.uniform(0, 6))).cross(c))
        q = sg.UnitVector3d(c.rotatedAround(p, sg.Angle(rad)))
        step = 2 * math.pi / n
        return sg.ConvexPolygon([sg.UnitVector3d(q.rotatedAround(c, sg.Angle(step * (i + 0.3 * g.random())))) for i in range(n)])
    a, b = sg.Circle(unit(g), sg.Angle(0.4)), sg.Circle(unit(g), sg.Angle(1.0))
    return g.choice([sg.UnionRegion(a, b), sg.IntersectionRegion(a, b), sg.Ellipse(unit(g), unit(g), sg.Angle(2.0)), sg.Ellipse.empty(), sg.Ellipse.full()])


def trip(out, seed, n):
    g = random.Random(seed)
    with open(out, "w") as fh:
        for _ in range(n):
            x = region(g)
            t = y = None
            try:
                t = x.to_ivoa_pos()
                y = sg.Region.from_ivoa_pos(t)
            except Exception as e:
                y = e
            ok = t is None or (type(t) is str and len(t.split()) == {"CIRCLE": 4, "RANGE": 5}.get(t.split()[0], 1 + 2 * len(x.getVertices()) if type(x) is sg.ConvexPolygon else -1))
            fh.write(json.dumps(dict(x=desc(x), y=desc(y), word=t.split()[0] if t else "", shape=bool(ok), text=t or "")) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        replay(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        trip(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
