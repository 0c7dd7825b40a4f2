------------------------------- MODULE Sphere -------------------------------
(* Regions on the unit sphere as point sets, decided in exact integer
   arithmetic.

   A point is a vector of integers: its coordinates times 2^75 (rounded), so
   that it has unit length up to 2^-60 or better.  Cosines and sines are given
   times 2^60.  Side(R, v, t) says where the point v is with respect to the
   region R: 1 if it is inside by more than 2^-t (radians, roughly), -1 if it is
   outside by more than 2^-t, and 0 if it is nearer to the boundary than that.

   Regions:
     circle  c centre, s squared chord length times 2^150 (negative: empty;
             4 * 2^150 or more: the whole sphere), o the direction <<cos, sin>>
             of its opening angle
     box     e empty; full: all longitudes; a, b directions <<cos, sin>> of
             the first and last longitude (counter-clockwise from a to b);
             lo, hi directions <<cos, sin>> of the latitude bounds;
             lop, hip: the bound is exactly a pole
     ell     the points whose distances to the foci f and g add up to at most
             an angle w in 0..2pi with cosine c and sine s; half: w > pi;
             e empty; full: everything
     poly    v vertices in counter-clockwise order (strictly convex, inside one
             hemisphere): the points on the inner side of every edge
     union, inter   of the regions r
     all, none                                                                *)
EXTENDS Vec

P2(n) == BShl(B(1), n)
ONE150 == P2(150)
Sgn3(in, out) == IF in THEN 1 ELSE IF out THEN -1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

CircleSide(R, v, t) ==
    IF BSgn(R.s) < 0 THEN -1
    ELSE IF BLeq(P2(152), R.s) THEN 1
    ELSE LET d2 == VSq(VSub(v, R.c))
             d  == BSub(R.s, d2)
             near == BLeq(BSq(d), BAdd(BMul(BMax(d2, R.s), P2(152 - 2 * t)), P2(302 - 4 * t)))
         IN IF near THEN 0 ELSE BSgn(d)

\* a direction turned by the angle atan(2^-t) (sg = 1) or -atan(2^-t) (sg = -1), times 2^t
Turn(u, t, sg) == LET k == P2(t) g == B(sg) IN
                  <<BSub(BMul(k, u[1]), BMul(g, u[2])), BAdd(BMul(k, u[2]), BMul(g, u[1]))>>

\* the latitude of v is at least that of the direction u (cosine u[1] >= 0)
LatGE(v, u) == LET l == BMul(v[3], u[1])
                   r == BMul(BAdd(BSq(v[1]), BSq(v[2])), BSq(u[2]))
               IN IF BSgn(u[2]) >= 0 THEN BSgn(l) >= 0 /\ BLeq(r, BSq(l))
                  ELSE BSgn(l) >= 0 \/ BLeq(BSq(l), r)
LatAbove(v, u, t) ==
    LET p == Turn(u, t, 1) m == Turn(u, t, -1)
    IN Sgn3(BSgn(p[1]) > 0 /\ LatGE(v, p), ~(BSgn(m[1]) <= 0 \/ LatGE(v, m)))
LatBelow(v, u, t) == LatAbove(<<v[1], v[2], BNeg(v[3])>>, <<u[1], BNeg(u[2])>>, t)

Cross2(a, b) == BSub(BMul(a[1], b[2]), BMul(a[2], b[1]))
Dot2(a, b) == BAdd(BMul(a[1], b[1]), BMul(a[2], b[2]))
LonSide(R, v, t) ==
    IF R.full THEN 1
    ELSE LET ca == Cross2(R.a, v) cb == Cross2(v, R.b)
             m  == P2(270 - 2 * t)
             l  == BNeg(P2(135 - t))
             nearA == BLeq(BSq(ca), m) /\ BLeq(l, Dot2(R.a, v))
             nearB == BLeq(BSq(cb), m) /\ BLeq(l, Dot2(R.b, v))
         IN IF nearA \/ nearB THEN 0
            ELSE IF BSgn(Cross2(R.a, R.b)) >= 0
                 THEN IF BSgn(ca) > 0 /\ BSgn(cb) > 0 THEN 1 ELSE -1
                 ELSE IF BSgn(ca) < 0 /\ BSgn(cb) < 0 THEN -1 ELSE 1
BoxSide(R, v, t) ==
    IF R.e THEN -1
    ELSE LET lo == IF R.lop THEN 1 ELSE LatAbove(v, R.lo, t)
         IN IF lo < 0 THEN -1
            ELSE LET hi == IF R.hip THEN 1 ELSE LatBelow(v, R.hi, t)
                 IN IF hi < 0 THEN -1 ELSE MinI(MinI(lo, hi), LonSide(R, v, t))

\* the distances d1, d2 of v to the foci satisfy d1 + d2 <= w, for w in (0, 2 pi).  c1, c2 are their cosines,
\* S the product of the squared sines, in cosines times 2^150, which are known to about 2^-60: within
\* 2^-58 the answer is no (sg = -1) or yes (sg = 1)
SumLeq(c1, c2, S, cosw, scale, half, sg) ==
    LET T0 == BSub(BMul(BMul(c1, c2), P2(scale)), BMul(cosw, P2(240)))
        T == BAdd(T0, BMul(B(IF half THEN -sg ELSE sg), P2(242 + scale)))
        S2 == BMul(S, P2(2 * scale))
        front == BSgn(BAdd(c1, c2)) >= 0
    IN IF half THEN front \/ BSgn(T) <= 0 \/ BLeq(BSq(T), S2)
       ELSE front /\ BSgn(T) >= 0 /\ BLeq(S2, BSq(T))
EllSide(R, v, t) ==
    IF R.e THEN -1 ELSE IF R.full THEN 1
    ELSE LET c1 == VDot(v, R.f) c2 == VDot(v, R.g)
             S == BMul(VSq(VCross(v, R.f)), VSq(VCross(v, R.g)))
             u == <<R.c, R.s>>
             p == Turn(u, t - 1, 1) m == Turn(u, t - 1, -1)   \* twice the tolerance
             \* did turning pass through angle 0?
             under == ~R.half /\ BSgn(m[2]) < 0 /\ BSgn(m[1]) > 0
             over  == R.half /\ BSgn(p[2]) >= 0 /\ BSgn(p[1]) > 0
             in  == IF under THEN FALSE ELSE SumLeq(c1, c2, S, m[1], t - 1, BSgn(m[2]) < 0, -1)
             may == IF over THEN TRUE ELSE SumLeq(c1, c2, S, p[1], t - 1, BSgn(p[2]) < 0, 1)
         IN Sgn3(in, ~may)

\* polygons carry the normals n of their edges, with squared lengths q
Next1(k, n) == IF k = n THEN 1 ELSE k + 1
PolyNormals(vs) == [k \in 1..Len(vs) |-> VCross(vs[k], vs[Next1(k, Len(vs))])]
EdgeSide(n, q, v, t) == LET d == VDot(n, v) IN
                        IF BLeq(BSq(d), BMul(q, P2(150 - 2 * t))) THEN 0 ELSE BSgn(d)
RECURSIVE PolyFrom(_, _, _, _, _)
PolyFrom(R, v, t, k, acc) ==
    IF k > Len(R.n) THEN acc
    ELSE LET s == EdgeSide(R.n[k], R.q[k], v, t)
         IN IF s < 0 THEN -1 ELSE PolyFrom(R, v, t, k + 1, MinI(acc, s))

\* regions with everything precomputed
RECURSIVE Prep(_)
Prep(R) == IF R.k = "poly"
           THEN LET n == PolyNormals(R.v) IN [k |-> "poly", v |-> R.v, n |-> n, q |-> [j \in 1..Len(n) |-> VSq(n[j])]]
           ELSE IF R.k \in {"union", "inter"} THEN [k |-> R.k, r |-> [j \in 1..Len(R.r) |-> Prep(R.r[j])]]
           ELSE R

RECURSIVE Side(_, _, _), SideFrom(_, _, _, _, _)
Side(R, v, t) ==
    CASE R.k = "circle" -> CircleSide(R, v, t)
      [] R.k = "box" -> BoxSide(R, v, t)
      [] R.k = "ell" -> EllSide(R, v, t)
      [] R.k = "poly" -> PolyFrom(R, v, t, 1, 1)
      [] R.k = "union" -> SideFrom(R, v, t, 1, -1)
      [] R.k = "inter" -> SideFrom(R, v, t, 1, 1)
      [] R.k = "all" -> 1
      [] R.k = "none" -> -1
SideFrom(R, v, t, k, acc) ==
    IF k > Len(R.r) THEN acc
    ELSE LET s == Side(R.r[k], v, t)
         IN SideFrom(R, v, t, k + 1, IF R.k = "union" THEN MaxI(acc, s) ELSE MinI(acc, s))
In(R, v, t) == Side(R, v, t) = 1
Out(R, v, t) == Side(R, v, t) = -1

(* ---- regions that are clearly nested or clearly apart (sufficient conditions
   with a margin of about 2^-20)                                             *)
MARGIN == P2(40)    \* 2^-20, times 2^60
SumDir(u, w) == <<BSub(BMul(u[1], w[1]), BMul(u[2], w[2])), BAdd(BMul(u[2], w[1]), BMul(u[1], w[2]))>>
DiffDir(u, w) == SumDir(u, <<w[1], BNeg(w[2])>>)
Proper(C) == BSgn(C.s) >= 0 /\ BLt(C.s, P2(152))
\* cosine of the distance of two points, times 2^120
CosD(p, q) == VDot(p, q)   \* times 2^150
Lift(x) == BMul(x, P2(30))
M150 == P2(130)
CircleInCircle(X, Y) == \* X clearly inside Y
    Proper(X) /\ Proper(Y) /\ LET d == DiffDir(Y.o, X.o) IN
    BSgn(d[2]) >= 0 /\ BLeq(BAdd(Lift(d[1]), M150), CosD(X.c, Y.c))
CirclesApart(X, Y) ==
    Proper(X) /\ Proper(Y) /\ LET d == SumDir(X.o, Y.o) IN
    BSgn(d[2]) > 0 /\ BLeq(CosD(X.c, Y.c), BSub(Lift(d[1]), M150))
AtMostHalf(C) == BSgn(C.o[1]) >= 0
\* signed distance of c from the plane with normal n is clearly more than the opening angle of C
Beyond(C, n, q, sg) == LET d == BMul(B(sg), VDot(n, C.c)) IN
    BSgn(d) > 0 /\ BLeq(BMul(BMul(BSq(BAdd(C.o[2], MARGIN)), q), P2(30)), BSq(d))
CircleInPoly(C, P) == Proper(C) /\ AtMostHalf(C) /\ \A k \in 1..Len(P.n) : Beyond(C, P.n[k], P.q[k], 1)
CirclePolyApart(C, P) == Proper(C) /\ AtMostHalf(C) /\ \E k \in 1..Len(P.n) : Beyond(C, P.n[k], P.q[k], -1)
PolyInCircle(P, C) == Proper(C) /\ AtMostHalf(C) /\
    \A k \in 1..Len(P.v) : BLeq(BMul(BAdd(C.o[1], MARGIN), P2(90)), CosD(P.v[k], C.c))
PolyInPoly(X, Y) == \A k \in 1..Len(X.v) : Side(Y, X.v[k], 20) = 1
Separates(X, Y) == \E k \in 1..Len(X.n) : \A j \in 1..Len(Y.v) : EdgeSide(X.n[k], X.q[k], Y.v[j], 20) = -1
PolysApart(X, Y) == Separates(X, Y) \/ Separates(Y, X)
Narrow(X) == ~X.e /\ ~X.full /\ BSgn(Cross2(X.a, X.b)) >= 0
\* c is clearly more than the opening angle of C to the left (sg = 1) or right of the meridian u
BesideMeridian(C, u, sg) == LET d == BMul(B(sg), Cross2(u, C.c)) IN
    BSgn(d) > 0 /\ BLeq(BMul(BAdd(C.o[2], MARGIN), P2(75)), d)
CircleInBox(C, X) == Proper(C) /\ AtMostHalf(C) /\ Narrow(X)
    /\ (X.lop \/ LatAbove(C.c, SumDir(X.lo, C.o), 20) = 1)
    /\ (X.hip \/ LatBelow(C.c, DiffDir(X.hi, C.o), 20) = 1)
    /\ BesideMeridian(C, X.a, 1) /\ BesideMeridian(C, X.b, -1)
\* up to a quarter turn, the sum of a latitude and an opening angle stays below the pole
CircleBoxApart(C, X) == Proper(C) /\ AtMostHalf(C) /\ ~X.e
    /\ \/ BSgn(SumDir(X.hi, C.o)[1]) > 0 /\ LatAbove(C.c, SumDir(X.hi, C.o), 20) = 1
       \/ BSgn(DiffDir(X.lo, C.o)[1]) > 0 /\ LatBelow(C.c, DiffDir(X.lo, C.o), 20) = 1
       \/ Narrow(X) /\ (BesideMeridian(C, X.a, -1) \/ BesideMeridian(C, X.b, 1))
ClearlyWithin(X, Y) ==
    CASE X.k = "circle" /\ Y.k = "circle" -> CircleInCircle(X, Y)
      [] X.k = "circle" /\ Y.k = "poly" -> CircleInPoly(X, Y)
      [] X.k = "poly" /\ Y.k = "circle" -> PolyInCircle(X, Y)
      [] X.k = "poly" /\ Y.k = "poly" -> PolyInPoly(X, Y)
      [] X.k = "circle" /\ Y.k = "box" -> CircleInBox(X, Y)
      [] OTHER -> FALSE
ClearlyApart(X, Y) ==
    CASE X.k = "circle" /\ Y.k = "circle" -> CirclesApart(X, Y)
      [] X.k = "circle" /\ Y.k = "poly" -> CirclePolyApart(X, Y)
      [] X.k = "poly" /\ Y.k = "circle" -> CirclePolyApart(Y, X)
      [] X.k = "poly" /\ Y.k = "poly" -> PolysApart(X, Y)
      [] X.k = "circle" /\ Y.k = "box" -> CircleBoxApart(X, Y)
      [] X.k = "box" /\ Y.k = "circle" -> CircleBoxApart(Y, X)
      [] OTHER -> FALSE
=============================================================================
