------------------------------- MODULE Chord -------------------------------
(* Nearest and farthest points of a great circle arc from a to b, shorter than
   a half circle, as seen from v.  N is a x b.                                *)
EXTENDS Vec
SqS(x) == IF BSgn(x) < 0 THEN BNeg(BSq(x)) ELSE BSq(x)
\* compares the cosines of the angles from v to w and to x
CosCmp(v, w, x) == BCmp(BMul(SqS(VDot(v, w)), VSq(x)), BMul(SqS(VDot(v, x)), VSq(w)))
\* the direction in which v projects onto the plane of a and b
Proj(v, N) == VCross(N, VCross(v, N))
\* strictly between the half planes through the pole and a (b)
Between(v, a, b, N) == LET x == VCross(v, N) IN BSgn(VDot(x, a)) > 0 /\ BSgn(VDot(x, b)) < 0
Behind(v, a, b, N) == LET x == VCross(v, N) IN BSgn(VDot(x, a)) < 0 /\ BSgn(VDot(x, b)) > 0
Nearest(v, a, b) == LET N == VCross(a, b) IN
    IF Between(v, a, b, N) THEN Proj(v, N) ELSE IF CosCmp(v, a, b) >= 0 THEN a ELSE b
Farthest(v, a, b) == LET N == VCross(a, b) IN
    IF Behind(v, a, b, N) THEN VNeg(Proj(v, N)) ELSE IF CosCmp(v, a, b) <= 0 THEN a ELSE b
\* compares the squared chord length of v and w with X / 2^k:
\*     2 - 2 cos(v, w)  vs  X / 2^k
ChordCmp(v, w, X, k) == LET num == BSub(BShl(B(1), k + 1), X)
                        IN BCmp(BMul(SqS(num), BMul(VSq(v), VSq(w))), BShl(SqS(VDot(v, w)), 2 * (k + 1)))
=============================================================================
