----------------------------- MODULE TraceAngle -----------------------------
(* Recorded angles, coordinates and derived vectors.                          *)
EXTENDS Angle, Chord, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 8
VARIABLE i
P2(k) == BShl(B(1), k)
If(c, s) == IF c THEN {} ELSE {s}
Close(x, y, t) == BLeq(BAbs(BSub(x, y)), t)
PI120 == <<1, 28787, 23558, 26152, 6296, 12429, 4276, 23202, 4639, 3>>  \* pi times 2^120
\* twice the double next to pi, in units of 2^-50
TWOPI == <<1, 11544, 10376, 2029, 201>>
\* |x| <= y / 2^k
Tiny(x, y, k) == BLeq(BShl(BAbs(x), k), BAbs(y))
\* the angle between v and w is at most 2^-k (or they are both zero)
Aligned(v, w, k) == LET c == VCross(v, w) IN BSgn(VDot(v, w)) > 0 /\ BLeq(BShl(VSq(c), 2 * k), BMul(VSq(v), VSq(w)))
\* the cosine of the angle between v and w is at most 2^-k
Orthogonal(v, w, k) == LET d == VDot(v, w) IN BLeq(BShl(BSq(d), 2 * k), BMul(VSq(v), VSq(w)))
\* a unit vector at scale 75
Unit(u) == Close(VSq(u), P2(150), P2(100))
\* the point with the given cosines and sines (scale 60) of longitude and latitude; scale 120
Point(lon, lat) == << BMul(lon[1], lat[1]), BMul(lon[2], lat[1]), BShl(lat[2], 60) >>

\* ---- a, r and the circumference in units of 2^-k, k >= 50
Normalize(e) == LET C == BShl(TWOPI, e.k - 50) x == Norm(e.a, C) IN
    If(BSgn(e.r) >= 0 /\ BLeq(e.r, C), "not normalized")
    \cup If(IF BSgn(e.a) >= 0 THEN e.r = x ELSE Close(e.r, x, P2(e.k - 51)), "not congruent")
    \cup If(e.wasNormalized = (BSgn(e.a) >= 0 /\ BLeq(e.a, C)), "isNormalized")
\* two normalized angles and the results
Pair(e) == LET C == BShl(TWOPI, e.k - 50) t == P2(e.k - 50)
               R(x) == BSgn(x) >= 0 /\ BLeq(x, C) IN
    If(R(e.to) /\ R(e.between) /\ R(e.center), "not normalized")
    \cup If(Close(e.to, AngleTo(e.a, e.b, C), t), "getAngleTo")
    \cup If(Close(e.between, Between(e.a, e.b, C), t), "between")
    \* the midpoint of an arc through zero is wrapped once it reaches a turn
    \cup If(BCmp(e.b, e.a) < 0 /\ BLeq(C, BAdd(e.a, e.b)) => BCmp(e.center, C) < 0, "center is a turn")
    \cup If(LET d == BAbs(BSub(BShl(e.center, 1), Center2(e.a, e.b, C))) IN
          BLeq(d, BShl(t, 1)) \/ Close(d, BShl(C, 1), BShl(t, 1)), "center")  \* modulo a turn
Compare(e) == LET c == BCmp(e.a, e.b) IN If(e.r = <<c < 0, c <= 0, c = 0, c # 0, c >= 0, c > 0>>, "comparison")
\* sums, products and quotients are correctly rounded; everything is in the same unit, q*b is
Arith(e) == LET s == BAdd(e.a, e.b) d == BSub(e.a, e.b) IN
    If(Tiny(BSub(e.sum, s), s, 53), "sum") \cup If(Tiny(BSub(e.dif, d), d, 53), "difference")
    \cup If(e.neg = BNeg(e.a) /\ e.abs = BAbs(e.a), "sign")
    \cup If(LET p == BMul(e.a, e.f) IN Tiny(BSub(e.prod, p), p, 53), "product")
    \cup If(LET p == BMul(e.quot, e.f) x == BShl(e.a, e.qs) IN Tiny(BSub(p, x), x, 52), "quotient")
\* degrees d and radians r, both in the same unit
Degrees(e) == LET x == BMul(e.d, PI120) y == BShl(BMul(B(180), e.r), 120) z == BMul(e.back, PI120) IN
    If(Tiny(BSub(x, y), x, 51), "fromDegrees") \cup If(Tiny(BSub(z, y), y, 51), "asDegrees")
\* ---- coordinates; angles at scale 60 next to their directions
FromVector(e) == LET p == Point(e.lon, e.lat) IN
    If(Aligned(e.v, p, 49), "direction")
    \cup If(BSgn(e.rlon) >= 0 /\ BLeq(e.rlon, BShl(TWOPI, 10)), "longitude")
    \cup If(BLeq(BAbs(e.rlat), BShl(TWOPI, 8)), "latitude")
    \cup If((VZero(<<e.v[1], e.v[2], B(0)>>) => BSgn(e.rlon) = 0) /\ BSgn(e.rlat) = BSgn(e.v[3]), "pole")
    \cup If(e.parts /\ Unit(e.u) /\ Aligned(e.u, e.v, 48), "and back")
FromAngles(e) == If(Unit(e.u) /\ Aligned(e.u, Point(e.lon, e.lat), 50), "direction")
\* the constructor accepts latitudes up to pi/2 (r is the latitude at scale 60) and NaN
Accepts(e) == If(e.ok = BLeq(BAbs(e.rlat), BShl(TWOPI, 8)), "latitude")
\* the angle between v and w, half of which has the given direction (scale 60)
ChordIs(v, w, s, t) == LET lo == BMax(BSub(s, t), B(0)) hi == BAdd(s, t) IN
    ChordCmp(v, w, BShl(BSq(lo), 2), 120) >= 0 /\ (ChordCmp(v, w, BShl(BSq(hi), 2), 120) <= 0 \/ BLeq(P2(60), hi))
Separation(e) == If(ChordIs(e.v, e.w, e.h[2], P2(11)) /\ ChordIs(e.v, VNeg(e.w), e.h[1], P2(11)), "vectors")
    \cup If(ChordIs(e.v, e.w, e.g[2], P2(12)) /\ ChordIs(e.v, VNeg(e.w), e.g[1], P2(35)), "coordinates")
    \cup If(e.sym, "symmetry")
\* ---- derived vectors at scale 75
Derived(e) == If(Unit(e.o) /\ Orthogonal(e.o, e.v, 50), "orthogonal")
    \cup If(LET xy == <<e.v[1], e.v[2], B(0)>> h == <<e.n[1], e.n[2], B(0)>> z == BSgn(e.v[3]) IN
            IF VZero(xy) THEN e.nu = << BShl(B(-z), 75), B(0), B(0) >>
            ELSE Unit(e.nu) /\ Orthogonal(e.n, e.v, 50) /\ BSgn(e.n[3]) >= 0
                 /\ (IF z = 0 THEN VZero(h) ELSE LET c == VCross(h, xy) IN BSgn(VDot(h, xy)) = -z /\ BLeq(BShl(BSq(c[3]), 100), BMul(VSq(h), VSq(xy)))), "north")
    \cup If(Unit(e.u) /\ Aligned(e.u, e.v, 51), "normalized")
\* the norm and the vector in the same unit
Norms(e) == LET s == VSq(e.v) IN If(Tiny(BSub(BSq(e.n), s), s, 50), "normalize") \cup If(e.g = <<0>> \/ Tiny(BSub(BSq(e.g), s), s, 50), "getNorm")
\* v and w; e.equal: of equal length up to rounding, so that nearby vectors must have an accurate normal
Normal(e) == LET x == VCross(e.v, e.w) IN
    If(Unit(e.o) /\ Orthogonal(e.o, e.v, IF e.equal THEN 47 ELSE 44), "orthogonal to the first")
    \cup If(VZero(x) \/ (LET far == BLeq(BMul(VSq(e.v), VSq(e.w)), BShl(VSq(x), 80)) IN
             (e.equal \/ far) => BSgn(VDot(e.o, x)) > 0 /\ Orthogonal(e.o, e.w, IF e.equal THEN 47 ELSE 44)), "orthogonal to both")
    \cup If(LET wide == BLeq(BMul(VSq(e.v), VSq(e.w)), BShl(VSq(x), 4)) IN wide => Aligned(e.o, x, 46), "direction")
Meridian(e) == If(Unit(e.o) /\ Aligned(e.o, << BNeg(e.lon[2]), e.lon[1], B(0) >>, 51), "meridian")
\* v and r in the same unit, k at scale 75, a at scale 60
Rotation(e) == LET c == e.a[1] s == e.a[2] one == P2(60)
                   x == VAdd(VScale(BShl(c, 150), e.v), VAdd(VScale(BShl(s, 75), VCross(e.k, e.v)), VScale(BMul(VDot(e.k, e.v), BSub(one, c)), e.k)))
                   d == VSub(VScale(P2(210), e.r), x) IN
    If(BLeq(BShl(VSq(d), 98), VSq(VScale(P2(210), e.v))), "rotated") \cup If(Unit(e.u) /\ Aligned(e.u, x, 49), "rotated unit vector")
\* ---- sums, products: the error of every component is at most 2^-52 of the sum of the magnitudes
Abs3(v) == << BAbs(v[1]), BAbs(v[2]), BAbs(v[3]) >>
AllTiny(x, y, k) == \A j \in 1..3 : Tiny(BSub(x[j], y[j]), y[j], k)
CrossBound(v, w) == LET a == Abs3(v) b == Abs3(w) IN << BAdd(BMul(a[2], b[3]), BMul(a[3], b[2])), BAdd(BMul(a[3], b[1]), BMul(a[1], b[3])), BAdd(BMul(a[1], b[2]), BMul(a[2], b[1])) >>
Vectors(e) == If(Tiny(BSub(e.dot, VDot(e.v, e.w)), VDot(Abs3(e.v), Abs3(e.w)), 51), "dot")
    \cup If(LET x == VCross(e.v, e.w) b == CrossBound(e.v, e.w) IN \A j \in 1..3 : Tiny(BSub(e.cross[j], x[j]), b[j], 52), "cross")
    \cup If(LET x == VCross(VAdd(e.w, e.v), VSub(e.w, e.v)) a == VAdd(Abs3(e.v), Abs3(e.w)) b == CrossBound(a, a) IN \A j \in 1..3 : Tiny(BSub(e.robust[j], x[j]), b[j], 51), "robust cross")
    \cup If(AllTiny(e.sum, VAdd(e.v, e.w), 53) /\ AllTiny(e.dif, VSub(e.v, e.w), 53) /\ e.neg = VNeg(e.v), "sum")
    \cup If(AllTiny(e.cw, << BMul(e.v[1], e.w[1]), BMul(e.v[2], e.w[2]), BMul(e.v[3], e.w[3]) >>, 53), "component-wise product")
    \cup If(AllTiny(e.scaled, VScale(e.f, e.v), 53), "scaled") \cup If(AllTiny(VScale(e.f, e.over), VScale(e.ov, e.v), 52), "divided")
    \cup If(e.sq = e.dot2 /\ e.eq = (e.v = e.w) /\ e.zero = VZero(e.v), "equality")
\* ---- 3 by 3 matrices of integers, as sequences of rows: everything is exact
Tr(m) == [r \in 1..3 |-> [c \in 1..3 |-> m[c][r]]]
MM(m, n) == [r \in 1..3 |-> [c \in 1..3 |-> VDot(m[r], Tr(n)[c])]]
Each(op(_, _), m, n) == [r \in 1..3 |-> [c \in 1..3 |-> op(m[r][c], n[r][c])]]
Diag(x, y, z) == << <<x, B(0), B(0)>>, <<B(0), y, B(0)>>, <<B(0), B(0), z>> >>
Det(m) == VDet(m[1], m[2], m[3])
Adj(m) == Tr(<< VCross(m[2], m[3]), VCross(m[3], m[1]), VCross(m[1], m[2]) >>)
Inner(m, n) == BAdd(VDot(m[1], n[1]), BAdd(VDot(m[2], n[2]), VDot(m[3], n[3])))
Matrices(e) == LET m == e.m n == e.n v == e.v IN
    If(e.prod = MM(m, n), "product") \cup If(e.mv = << VDot(m[1], v), VDot(m[2], v), VDot(m[3], v) >>, "matrix times vector")
    \cup If(e.tr = Tr(m) /\ e.rows = m /\ e.cols = Tr(m), "transpose")
    \cup If(e.sum = Each(BAdd, m, n) /\ e.dif = Each(BSub, m, n) /\ e.cw = Each(BMul, m, n), "sum")
    \cup If(e.inner = Inner(m, n) /\ e.sq = Inner(m, m), "inner product")
    \cup If(e.diag = Diag(v[1], v[2], v[3]) /\ e.scalar = Diag(v[1], v[1], v[1]), "diagonal")
    \cup If(e.eq = (m = n), "equality")
    \* the inverse is in units of 2^-e.is
    \cup If(Det(m) = B(0) \/ (LET a == Adj(m) d == Det(m) IN \A r \in 1..3 : \A c \in 1..3 : LET x == BShl(a[r][c], e.is) IN Tiny(BSub(BMul(e.inv[r][c], d), x), x, 50)), "inverse")
Complaints(e) == CASE e.op = "norm" -> Normalize(e) [] e.op = "pair" -> Pair(e) [] e.op = "cmp" -> Compare(e) [] e.op = "arith" -> Arith(e)
    [] e.op = "deg" -> Degrees(e) [] e.op = "fromv" -> FromVector(e) [] e.op = "froma" -> FromAngles(e) [] e.op = "accepts" -> Accepts(e)
    [] e.op = "sep" -> Separation(e) [] e.op = "derived" -> Derived(e) [] e.op = "norms" -> Norms(e) [] e.op = "normal" -> Normal(e) [] e.op = "meridian" -> Meridian(e)
    [] e.op = "rot" -> Rotation(e) [] e.op = "vec" -> Vectors(e) [] e.op = "mat" -> Matrices(e) [] OTHER -> {"unknown"}
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Complaints(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
