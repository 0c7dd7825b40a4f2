"""One function per property: which specifications decide it and how they are bound to the code."""
import os, re
from .core import *


def _replay(c, exe, args, what):
    """Run a replay driver that prints MISMATCH and REPLAYED lines."""
    out = c.driver_ok(exe, args, what=what)
    if out is not None:
        _replayed(c, out, what)


def _replayed(c, out, what):
    m = re.search(r"REPLAYED (\d+) MISMATCHES (\d+)(.*)", out)
    if not m:
        raise InfraError(f"{what}: no summary in {out[-500:]}")
    c.replayed += int(m.group(1))
    c.traces += int(m.group(1)) if m.group(2) == "0" else 0
    if m.group(3).strip():
        c.extra.setdefault("replay_by_action", {}).update(
            {k: int(v) for k, v in (x.split("=") for x in m.group(3).split())})
    bad = [l for l in out.splitlines() if l.startswith("MISMATCH")]
    if int(m.group(2)):
        c.violation(f"{what}: {m.group(2)} replayed transitions differ, e.g. {bad[0][:400] if bad else ''}", "\n".join(bad))


def _sample(c, path, prefix, k=3):
    with open(path) as fh:
        ls = [l.strip() for l in fh if l.startswith(prefix)]
    for i in range(k):
        if ls:
            c.samples.append({"replayed_transition": ls[(len(ls) * (2 * i + 1)) // (2 * k)]})


def _rangeset(c, kind):
    exe = driver("rangeset")
    k = c.n(6, 8)
    sink = os.path.join(scratch(), "rs.txt")
    c.model("MCRangeSet", f"MCRangeSet{k}", env={"EMIT": 1}, sink=sink)
    _replay(c, exe, ["replay", sink, k, c.seed, kind], "RangeSet transitions")
    _sample(c, sink, '"@q' if kind == "q" else '"@')
    tr = os.path.join(scratch(), "rs.ndjson")
    if c.driver_ok(exe, ["record", tr, 14, c.seed, c.n(150, 1500), c.n(80, 150), kind], what="RangeSet histories") is not None:
        c.trace("TraceRangeSet", tr, what="RangeSet histories")


def P01(c):
    _rangeset(c, "m")
    c.assumptions += ["end points are drawn per history from 14 breakpoints (including 0 and values next to 2^64); "
                      "atoms between breakpoints are treated symmetrically by the specification"]


def P02(c):
    _rangeset(c, "q")


def P03(c):
    exe = driver("rangeset")
    w = c.n(3, 4)
    sink = os.path.join(scratch(), "rn.txt")
    c.model("MCRangeSetNum", f"MCRangeSetNum{w}", env={"EMIT": 1}, sink=sink)
    _replay(c, exe, ["small", sink, w, c.seed], "simplify/scale transitions")
    _sample(c, sink, '"@')
    tr = os.path.join(scratch(), "rn.ndjson")
    if c.driver_ok(exe, ["numeric", tr, c.seed, c.n(12000, 60000)], what="simplify/scale calls") is not None:
        c.trace("TraceRangeSetNum", tr, what="simplify/scale calls")


def P10(c):
    c.model("MCInterval")
    exe = driver("intervals")
    tr = os.path.join(scratch(), "iv.ndjson")
    if c.driver_ok(exe, [tr, c.seed, c.n(150, 2500), c.n(40, 80), c.n(1, 3)], what="interval histories") is not None:
        c.trace("TraceInterval", tr, what="interval histories")


def P11(c):
    c.model("MCArc", c.n("MCArc", "MCArc8"))
    exe = driver("arcs")
    tr = os.path.join(scratch(), "arc.ndjson")
    if c.driver_ok(exe, ["arc", tr, c.seed, c.n(300, 5000), c.n(60, 80), c.n(8, 4)], what="arc histories") is not None:
        c.trace("TraceArc", tr, what="arc histories")
    c.assumptions += ["end points lie on a grid of 48 directions (plus a quarter-step offset when dilating); "
                      "arcs whose dilation exactly closes the circle are excluded"]


def P12(c):
    exe = driver("arcs")
    tr = os.path.join(scratch(), "box.ndjson")
    if c.driver_ok(exe, ["box", tr, c.seed, c.n(1500, 8000), c.n(60, 80), 8], what="box histories") is not None:
        c.trace("TraceArc", tr, what="box histories")
    _regions(c, "grow", c.n(2500, 12000), "dilated boxes")


def P13(c):
    exe = driver("circles")
    tr = os.path.join(scratch(), "circles.ndjson")
    if c.driver_ok(exe, [tr, c.seed, c.n(1200, 8000)], what="circle histories") is not None:
        c.trace("TraceCircle", tr, what="circle histories")


def P09(c):
    c.model("MCCurve", c.n("MCCurve", "MCCurve7"))
    for name, flags in (("simd", ()), ("portable", ("-DNO_SIMD",))):
        exe = driver("curve", extra_flags=flags, lib=False)
        tr = os.path.join(scratch(), name + ".ndjson")
        if c.driver_ok(exe, [tr, c.seed, c.n(3000, 60000), c.n(4, 6)], what="curve calls") is not None:
            c.trace("TraceCurve", tr, what=f"curve calls {name}")


def P22(c):
    c.model("MCBigInt")
    exe = driver("bigint")
    tr = os.path.join(scratch(), "bi.ndjson")
    if c.driver_ok(exe, [tr, c.seed, c.n(500, 6000), c.n(80, 120)], what="big integer histories") is not None:
        c.trace("TraceBigInteger", tr, what="big integer histories")


def P23(c):
    c.model("MCOrientation")
    for flavor in ("san", "rel"):
        exe = driver("orientation", flavor)
        tr = os.path.join(scratch(), flavor + ".ndjson")
        if c.driver_ok(exe, [tr, c.seed + (flavor == "rel"), c.n(8000, 60000)], what="orientation calls") is not None:
            c.trace("TraceOrientation", tr, what=f"orientation calls {flavor}")


def _regions(c, mode, n, what, module="TraceRegion", **kw):
    exe = driver("regions")
    tr = os.path.join(scratch(), mode + ".ndjson")
    if c.driver_ok(exe, [mode, tr, c.seed, n], what=what) is not None:
        c.trace(module, tr, what=what, **kw)


def P14(c):
    _regions(c, "contain", c.n(6000, 20000), "membership")


def P15(c):
    _regions(c, "relate", c.n(8000, 40000), "relationships")


def P16(c):
    _regions(c, "bound", c.n(6000, 40000), "bounding shapes")


def P17(c):
    _regions(c, "compound", c.n(1600, 12000), "compound regions")


def _pixels(c, mode, n, what):
    """The answers of the SIMD and the portable flavours."""
    for name, flags, k in (("", (), n), (" portable", ("-DNO_SIMD",), n // 2)):
        exe = driver("pixels", extra_flags=flags)
        tr = os.path.join(scratch(), mode + name.strip() + ".ndjson")
        if c.driver_ok(exe, [mode, tr, c.seed, k], what=what + name) is not None:
            c.trace("TracePixel", tr, what=what + name)


def P04(c):
    _pixels(c, "index", c.n(3000, 15000), "pixel indexes")


def P05(c):
    _pixels(c, "nest", c.n(2400, 12000), "pixel hierarchy")


def P06(c):
    _pixels(c, "env", c.n(5000, 20000), "pixel envelopes")


def P07(c):
    _pixels(c, "int", c.n(3500, 20000), "pixel interiors")


def P08(c):
    _pixels(c, "nbr", c.n(2000, 9000), "pixel neighbourhoods")


def P20(c):
    c.model("MCChunker", c.n("MCChunker", "MCChunker3"))
    exe = driver("chunker")
    tr = os.path.join(scratch(), "conf.ndjson")
    if c.driver_ok(exe, ["conf", tr, c.seed, c.n(10, 24), c.n(0, 1)], what="chunker configurations", timeout=c.n(300, 600)) is not None:
        c.trace("TraceChunker", tr, what="chunker configurations")


def P21(c):
    exe = driver("chunker")
    tr = os.path.join(scratch(), "lookup.ndjson")
    if c.driver_ok(exe, ["look", tr, c.seed, c.n(3000, 20000), 0], what="chunk lookups", timeout=c.n(300, 600)) is not None:
        c.trace("TraceChunker", tr, what="chunk lookups")


def _codec(c, mode, n, what):
    c.model("MCCodec", c.n("MCCodec", "MCCodec9"))
    for name, flags in (("", ()), (" portable", ("-DNO_OPTIMIZED_PATHS",))):
        exe = driver("codec", extra_flags=("-fno-sanitize=alignment,float-cast-overflow",) + flags)  # the optimized codec reads unaligned doubles; coordinates may be garbage, which orientationExact casts
        tr = os.path.join(scratch(), mode + name.strip() + ".ndjson")
        if c.driver_ok(exe, [mode, tr, c.seed + len(flags), n], what=what + name) is not None:
            c.trace("TraceCodec", tr, what=what + name)


def P18(c):
    _codec(c, "enc", c.n(2500, 20000), "encodings")


def P19(c):
    _codec(c, "dec", c.n(8000, 60000), "malformed encodings")


def P24(c):
    c.model("MCHull", c.n("MCHull", "MCHull5"))
    if c.tier == "thorough":
        c.model("MCHull", "MCHullAll")
    exe = driver("hull", extra_flags=("-D_GLIBCXX_ASSERTIONS",))
    for mode, n in (("grid", c.n(2500, 30000)), ("real", c.n(1800, 12000))):
        tr = os.path.join(scratch(), mode + ".ndjson")
        if c.driver_ok(exe, [mode, tr, c.seed, n], what=f"{mode} hulls") is not None:
            c.trace("TraceHull", tr, what=f"{mode} hulls")


def P28(c):
    c.model("MCChord")
    exe = driver("chords")
    tr = os.path.join(scratch(), "chords.ndjson")
    if c.driver_ok(exe, [tr, c.seed, c.n(3000, 20000)], what="distance bounds") is not None:
        c.trace("TraceChord", tr, what="distance bounds")


def _angles(c, mode, n, what):
    for name, flags, k in (("", (), n), (" portable", ("-DNO_SIMD",), n // 2)):
        exe = driver("angles", "san", flags)
        tr = os.path.join(scratch(), f"angles{name.strip()}.ndjson")
        if c.driver_ok(exe, [tr, c.seed + len(flags), k, mode], what=what + name) is not None:
            c.trace("TraceAngle", tr, what=what + name)


def P25(c):
    c.model("MCAngle")
    _angles(c, "a", c.n(1000, 8000), "angles and coordinates")


def P29(c):
    _angles(c, "m", c.n(2000, 8000), "vectors and matrices")


def P26(c):
    c.model("MCPyStore")
    exe = driver("pyoracle", "deb")
    tr = os.path.join(scratch(), "py.ndjson")
    out = c.python_ok("pydrive.py", [tr, c.seed, c.n(420, 5000), 40, exe], what="Python histories", timeout=c.n(300, 800))
    if out is not None:
        m = re.search(r"CALLED (\d+) DISTINCT (\d+) UNUSED (\d+)", out)
        c.extra["python_calls"] = {"calls": int(m.group(1)), "bindings": int(m.group(2)), "not_called": int(m.group(3))}
        c.trace("TracePython", tr, what="Python histories", chunk=500)
    tr = os.path.join(scratch(), "pyr.ndjson")
    if c.python_ok("pyrange.py", [tr, c.seed, c.n(60, 600), 60], what="Python RangeSet histories") is not None:
        c.trace("TraceRangeSet", tr, what="Python RangeSet histories", chunk=200)
    sink = os.path.join(scratch(), "pos.txt")
    c.model("MCPos", "MCPos2", env={"EMIT": 1}, sink=sink)
    out = c.python_ok("pypos.py", ["replay", sink, c.seed, c.n(1, 4)], what="POS texts")
    if out is not None:
        _replayed(c, out, "POS texts")
    tr = os.path.join(scratch(), "trip.ndjson")
    if c.python_ok("pypos.py", ["trip", tr, c.seed, c.n(3000, 40000)], what="POS round trips") is not None:
        c.trace("TracePos", tr, what="POS round trips")


def P27(c):
    c.model("MCHealpix")
    tr = os.path.join(scratch(), "hpx.ndjson")
    if c.python_ok("hpx.py", ["grid", tr, c.seed, c.n(400, 6000)], what="HEALPix indexes and pixels") is not None:
        c.trace("TraceHealpix", tr, what="HEALPix indexes and pixels")
    src = os.path.join(scratch(), "hpx-src.ndjson")
    if c.driver_ok(driver("hpx"), [src, c.seed, c.n(1200, 12000)], what="regions for HEALPix") is None:
        return
    if c.python_ok("hpx.py", ["env", src, tr, c.seed], what="HEALPix envelopes") is not None:
        c.trace("TracePixel", tr, what="HEALPix envelopes")
    if c.python_ok("hpx.py", ["int", src, tr, c.seed], what="HEALPix interiors") is not None:
        c.trace("TracePixel", tr, what="HEALPix interiors",
                keyfn=lambda x, ev: "interior-bulge" if set(re.findall(r'<<"(\w+)"', x)) == {"bulge"} else None)
    c.assumptions += ["libm's sin, cos and atan2 give the longitudes and coordinates of the witnesses",
                      "boxes, circles, ellipses and well conditioned convex polygons; levels up to 17 for covers",
                      "hpgeom refuses polygons whose corners are straight to about 1e-8; these are not used"]
