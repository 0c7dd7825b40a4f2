"""Answers of lsst.sphgeom.HealpixPixelization for spec/TraceHealpix.tla and spec/TracePixel.tla."""
import copy, json, math, pickle, random, struct, sys
from fractions import Fraction
import hpgeom
import numpy as np
import yaml
import lsst.sphgeom as sg
from lsst.sphgeom import HealpixPixelization as H


def big(x):
    x = int(x)
    r, m = [0 if x == 0 else 1 if x > 0 else -1], abs(x)
    while m:
        r.append(m & 32767)
        m >>= 15
    return r


def fix(v, p):
    return big(Fraction(float(v)) * 2 ** p)


def vec(u):
    return [fix(u.x(), 75), fix(u.y(), 75), fix(u.z(), 75)]


def pt(u):
    phi = math.atan2(u.y(), u.x())
    q = u.x() * u.x() + u.y() * u.y()
    t = phi / (math.pi / 2)
    if t < 0:
        t += 4
    return dict(v=vec(u), t=fix(t, 45), s=fix(math.sqrt(3 * q / (1 + abs(u.z()))), 45), cs=[fix(math.cos(phi), 60), fix(math.sin(phi), 60)])


def direction(g, l):
    k = g.randrange(10)
    z, phi = g.uniform(-1, 1), g.uniform(0, 2 * math.pi)
    if k == 0:
        return sg.UnitVector3d(*g.choice([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (0.0, -0.0, -1.0), (1, -0.0, 0.0), (1, 1, 0), (1, -1, 1)]))
    if k == 1:
        z = g.choice([-1, 1]) * (1 - 10.0 ** g.uniform(-17, -1))
    if k == 2:
        z = g.choice([-1, 1]) * (2 / 3 + g.choice([0, 10.0 ** g.uniform(-17, -3) * g.choice([-1, 1])]))
    if k == 3:
        phi = g.randrange(9) * math.pi / 4 + g.choice([0, g.gauss(0, 1) * 10.0 ** g.uniform(-17, -3)])
    if k == 4:
        return sg.UnitVector3d(10.0 ** g.uniform(-20, -3) * g.choice([-1, 1]), 10.0 ** g.uniform(-20, -3) * g.choice([-1, 1]), g.choice([-1.0, 1.0]))
    if k >= 7:  # around the corners and edges of pixels
        n = 2 ** l
        i = g.randrange(12 * n * n)
        w = [sg.UnitVector3d(*map(float, c)) for c in hpgeom.angle_to_vector(*hpgeom.boundaries(n, i, step=2))]
        e = g.choice([0, 10.0 ** g.uniform(-16, 0) / n])
        c = g.choice(w)
        return sg.UnitVector3d(c.x() + e * g.gauss(0, 1), c.y() + e * g.gauss(0, 1), c.z() + e * g.gauss(0, 1))
    c = math.sqrt(max(0, 1 - z * z))
    return sg.UnitVector3d(c * math.cos(phi), c * math.sin(phi), z) if c > 0 else sg.UnitVector3d(0, 0, z)


def ranges(s):
    return [[big(a), big(b if b else 2 ** 64)] for a, b in s.ranges()]


def grid(out, seed, n):
    g = random.Random(seed)
    with open(out, "w") as fh:
        for k in range(n):
            l = g.choice([0, 1, 2, g.randrange(18), g.randrange(18), 17, g.randrange(18, 27)])
            h, h1 = H(l), H(l + 1)
            ps = []
            for _ in range(12):
                u = direction(g, l)
                ps.append(dict(pt(u), ix=big(h.index(u)), ix1=big(h1.index(u))))
            fh.write(json.dumps(dict(op="index", l=l, p=ps)) + "\n")
            l = g.choice([0, 1, 2, g.randrange(18), 17])
            h = H(l)
            i = k if k < 12 else g.randrange(12 * 4 ** l)
            if k < 12:
                h = H(l := 0)
            vs = list(h.pixel(i).getVertices())
            m = [sum(c) for c in zip(*[(u.x(), u.y(), u.z()) for u in vs])]
            fh.write(json.dumps(dict(op="pixel", l=l, i=big(i), p=[pt(u) for u in vs], mid=pt(sg.UnitVector3d(*m)))) + "\n")
            l = g.randrange(-3, 28)
            m = g.choice([l, l + 1, max(0, l - 1), g.randrange(0, 20)])
            m = max(m, 0)
            e = dict(op="ident", l=l, m=m, threw=False)
            try:
                h = H(l)
                o = H(m)
                i = g.randrange(12 * 4 ** l)
                cs = [pickle.loads(pickle.dumps(h, p)) for p in range(2, 6)] + [copy.copy(h), copy.deepcopy(h), yaml.safe_load(yaml.dump(h)), yaml.load(yaml.dump(h), Loader=yaml.FullLoader)]
                rep = repr(h)
                assert rep.startswith("HealpixPixelization(") and rep.endswith(")") and rep == str(h)
                e.update(lev=h.getLevel(), lev2=h.level, nside=big(h.nside), uni=ranges(h.universe()), eq=bool(h == o), ne=bool(h != o), copies=[c.level if type(c) is H and c.nside == h.nside and c.universe() == h.universe() else -1 for c in cs],
                         copyeq=all(bool(c == h) and not (c != h) for c in cs), i=big(i), name=[int(c) if c in "0123456789" else -1 for c in h.toString(i)], repr=[int(c) if c in "0123456789" else -1 for c in rep[20:-1]])
            except ValueError:
                e["threw"] = True
            fh.write(json.dumps(e) + "\n")


def exact(*c):
    u = sg.UnitVector3d.__new__(sg.UnitVector3d)
    u.__setstate__(c)  # the constructor would normalize again
    assert (u.x(), u.y(), u.z()) == c
    return u


def corners(h, i):
    return [sg.UnitVector3d(*map(float, c)) for c in zip(*hpgeom.angle_to_vector(*hpgeom.boundaries(h.nside, i, step=1)).T)]


def around(h, i):
    """Corners of a square about twice as large as the pixel."""
    c = np.array(hpgeom.angle_to_vector(*hpgeom.pixel_to_angle(h.nside, i)))
    a = np.cross(c, np.eye(3)[np.argmin(abs(c))])
    a /= np.linalg.norm(a)
    b, k = np.cross(c, a), 2 * hpgeom.max_pixel_radius(h.nside, degrees=False)
    return [vec(sg.UnitVector3d(*map(float, c + k * (x * a + y * b)))) for x, y in ((1, 1), (-1, 1), (-1, -1), (1, -1))]


def region(src, out, seed, mode):
    g = random.Random(seed)
    with open(src) as fi, open(out, "w") as fh:
        for line in fi:
            d = json.loads(line)
            r = sg.Region.decode(bytes.fromhex(d["hex"]))
            h = H(d["l"])
            if isinstance(r, sg.ConvexPolygon):  # hpgeom refuses polygons with ill-conditioned corners, or gets lost
                vs = list(r.getVertices())
                if any(c not in (a, b) and sg.UnitVector3d(a.robustCross(b)).dot(c) < 1e-7 for a, b in zip(vs, vs[1:] + vs) for c in vs):
                    continue
            pts = [exact(*struct.unpack(">3d", bytes.fromhex(x))) for x in d["raw"]]
            ix = [int(h.index(u)) for u in pts]
            env = h.envelope(r)
            f = env if mode == "env" else h.interior(r)
            e = dict(op=mode, k="hpx", l=d["l"], r=d["r"], p=d["p"], ix=[big(i) for i in ix], full=True, f=ranges(f), c=ranges(f), cap=0, pix=[], hex=d["hex"])
            if mode == "env" and h.level > 2 and not isinstance(r, sg.Ellipse):
                pool = [x for a, b in env.ranges() for x in (a, (a + b) // 2, b - 1)]
                e["pix"] = [dict(i=big(i), v=around(h, i)) for i in sorted({g.choice(pool) for _ in range(5)} if pool else {})]
            if mode == "int":
                pool = [x for a, b in f.ranges() for x in (a, b - 1)]
                pool = [g.choice(pool) for _ in range(6)] if pool else []
                pool += g.choices(ix, k=3)
                cs = {i: [vec(u) for u in corners(h, i)] for i in {*pool, *ix}}
                e.update(env=ranges(env), pix=[dict(i=big(i), v=cs[i]) for i in sorted(set(pool))], cor=[cs[i] if f.contains(i) else [] for i in ix])
            fh.write(json.dumps(e) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "grid":
        grid(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        region(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[1])
