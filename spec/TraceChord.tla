----------------------------- MODULE TraceChord -----------------------------
(* Recorded answers of the helpers that bound angular distances.              *)
EXTENDS Chord, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 8
VARIABLE i
PI60 == <<1, 12429, 4276, 23202, 4639, 3>>   \* pi times 2^60
P2(k) == BShl(B(1), k)
If(c, s) == IF c THEN {} ELSE {s}
Close(x, y, t) == BLeq(BAbs(BSub(x, y)), t)
\* r = sqrt(D) at scale 60; the chord of v and w is within e of it
RootOK(D, r) == BLeq(BAbs(BSub(BSq(r), BShl(D, 45))), BAdd(BMul(B(4), r), P2(46)))
EPS == B(6000)                                \* 5e-15
ChordIs(v, w, D, r) == LET lo == BMax(BSub(r, EPS), B(0)) hi == BAdd(r, EPS) IN
    RootOK(D, r) /\ ChordCmp(v, w, BSq(lo), 120) >= 0 /\ ChordCmp(v, w, BSq(hi), 120) <= 0
\* clearly positive: the angle is more than 4e-15
Clearly(x, v, a, M) == BSgn(x) > 0 /\ BCmp(BShl(BSq(x), 96), BMul(VSq(M), BMul(VSq(v), VSq(a)))) > 0
FOUR == P2(77)
Edge(e) == LET M == VCross(e.a, e.b) x == VCross(e.v, M) xa == VDot(x, e.a) xb == VDot(x, e.b)
               in == Clearly(xa, e.v, e.a, M) /\ Clearly(BNeg(xb), e.v, e.b, M)
               out == Clearly(BNeg(xa), e.v, e.a, M) \/ Clearly(xb, e.v, e.b, M)
               behind == Clearly(BNeg(xa), e.v, e.a, M) /\ Clearly(xb, e.v, e.b, M)
               notbehind == Clearly(xa, e.v, e.a, M) \/ Clearly(BNeg(xb), e.v, e.b, M)
               p == Proj(e.v, M)
           IN If(in => ChordIs(e.v, p, e.min.d, e.min.r), "minimum inside") \cup If(out => e.min.d = FOUR, "minimum outside")
              \cup If(e.min.d = FOUR \/ VZero(p) \/ ChordIs(e.v, p, e.min.d, e.min.r), "minimum")
              \cup If(behind => ChordIs(e.v, VNeg(p), e.max.d, e.max.r), "maximum inside") \cup If(notbehind => e.max.d = B(0), "maximum outside")
              \cup If(e.max.d = B(0) \/ VZero(p) \/ ChordIs(e.v, VNeg(p), e.max.d, e.max.r), "maximum")
              \cup If(ChordIs(e.v, Nearest(e.v, e.a, e.b), e.near.d, e.near.r), "nearest")
              \cup If(ChordIs(e.v, Farthest(e.v, e.a, e.b), e.far.d, e.far.r), "farthest")
\* points and circles of constant latitude; angles at scale 60
Lat(e) == If(Close(e.min, BAbs(BSub(e.x, e.c)), B(600)), "minimum angle")
          \cup If(Close(e.max, BSub(PI60, BAbs(BAdd(e.x, e.c))), B(3000)), "maximum angle")
\* ascending opening angles (scale 60), their squared chord lengths (scale 120) and what these convert back to;
\* h is the direction of half the angle
Conv(e) == LET n == Len(e.a) IN
    UNION {LET a == e.a[k] d == e.d[k] r == e.r[k] s2 == BShl(BSq(e.h[k][2]), 2) IN
           (IF BSgn(a) < 0 THEN If(BSgn(d) < 0 /\ BSgn(r) < 0, "empty")
            ELSE IF e.full[k] THEN If(d = P2(122) /\ Close(r, PI60, B(512)), "full")
            ELSE If(BLeq(BShl(BAbs(BSub(d, s2)), 49), BAdd(s2, BShl(BAdd(e.h[k][2], B(1)), 53))), "chord length")
                 \* sin is flat near the full circle
                 \cup If(BLeq(BMul(BAbs(BSub(r, a)), BMax(e.h[k][1], P2(33))), BAdd(P2(72), BShl(a, 12))), "angle"))
           \cup If(k = 1 \/ (BLeq(e.d[k - 1], d) /\ BLeq(e.r[k - 1], r)), "not monotone") : k \in 1..n}
\* vectors at scale 150; parts are the centroids of the triangles between p and the edges; 2^-m bounds the edges
Norm1(c) == BAdd(BAbs(c[1]), BAdd(BAbs(c[2]), BAbs(c[3])))
Sum3(p) == VAdd(p[1], VAdd(p[2], p[3]))
Cen(e) == LET c == e.c tol == BAdd(BAdd(P2(100 - e.m), P2(20)), P2(0)) n == Norm1(c) IN
    If(\A k \in 1..3 : LET s == Sum3(e.parts) IN BLeq(BShl(BAbs(BSub(c[k], s[k])), 28), BAdd(n, BShl(tol, 28))), "not additive")
    \cup If(\A k \in 1..3 : Close(c[k], BNeg(e.rev[k]), BAdd(P2(100 - e.m), P2(20))) /\ Close(c[k], e.rot[k], BAdd(P2(100 - e.m), P2(20))), "order of the vertices")
    \cup If(~e.fat \/ (Orient(e.v[1], e.v[2], c) > 0 /\ Orient(e.v[2], e.v[3], c) > 0 /\ Orient(e.v[3], e.v[1], c) > 0), "outside")
    \* a small triangle is flat: its centroid is weighted by half of the cross product of two edges; relative error 2^-10
    \cup (IF e.m < 7 \/ ~e.fat THEN {} ELSE
          LET x == VCross(VSub(e.v[2], e.v[1]), VSub(e.v[3], e.v[1]))      \* scale 150
              d == BSub(BMul(B(4), VSq(c)), VSq(x)) IN If(BLeq(BShl(BAbs(d), 9), VSq(x)), "weight"))
Octant(e) == If(\A k \in 1..3 : Close(BShl(e.c[k], 2), BShl(PI60, 90), P2(104)), "octant")
\* the centroid of a polygon is left of its edges, up to 2^-44
Poly(e) == If(\A k \in 1..Len(e.v) : LET M == VCross(e.v[k], e.v[(k % Len(e.v)) + 1]) x == VDot(e.c, M) IN
              BSgn(x) >= 0 \/ BLeq(BShl(BSq(x), 2 * e.tol), BMul(VSq(e.c), VSq(M))), "outside")
Complaints(e) == CASE e.op = "edge" -> Edge(e) [] e.op = "lat" -> Lat(e) [] e.op = "conv" -> Conv(e) [] e.op = "cen" -> Cen(e)
                   [] e.op = "octant" -> Octant(e) [] OTHER -> Poly(e)
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Complaints(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
