------------------------------ MODULE MCChord ------------------------------
(* Over small integer directions: the case distinction of spec/Chord.tla finds
   points of the arc, and no point of the arc is nearer (farther).            *)
EXTENDS Chord, FiniteSets, TLC
CONSTANT K
R == {<<B(x), B(y), B(z)>> : x \in -1..1, y \in -1..1, z \in -1..1} \ {<<B(0), B(0), B(0)>>}
VARIABLES v, a, b, i, j
vars == <<v, a, b, i, j>>
Init == v \in R /\ a \in R /\ b = a /\ i = 0 /\ j = 0
Next == \/ /\ i + j = 0 /\ b' \in {x \in R : ~VZero(VCross(a, x))} /\ i' \in 0..K /\ j' = K - i' /\ UNCHANGED <<v, a>>
Spec == Init /\ [][Next]_vars
w == VAdd(VScale(B(i), a), VScale(B(j), b))
OnArc(x) == LET N == VCross(a, b) IN BSgn(VDot(x, N)) = 0 /\ BSgn(VDot(VCross(a, x), N)) >= 0 /\ BSgn(VDot(VCross(x, b), N)) >= 0
Extreme == (i + j > 0) => LET n == Nearest(v, a, b) f == Farthest(v, a, b) IN
           /\ OnArc(n) /\ OnArc(f) /\ ~VZero(n) /\ ~VZero(f)
           /\ CosCmp(v, w, n) <= 0 /\ CosCmp(v, w, f) >= 0
\* chord lengths order the points as the cosines do, and are 0, 1, 2, 4 at 0, 60, 90, 180 degrees
ChordOrder == (i + j > 0) => LET n == Nearest(v, a, b) IN
              /\ \A X \in 0..8 : (ChordCmp(v, w, B(X), 1) <= 0 /\ ChordCmp(v, n, B(X), 1) >= 0) => CosCmp(v, w, n) >= 0
              /\ (BSgn(VDot(v, w)) = 0) = (ChordCmp(v, w, B(4), 1) = 0)
              /\ VSame(v, w) = (ChordCmp(v, w, B(0), 1) = 0)
              /\ VSame(v, VNeg(w)) = (ChordCmp(v, w, B(8), 1) = 0)
              /\ (BCmp(BSq(VDot(v, w)), BMul(VSq(v), VSq(w))) < 0 /\ BSgn(VDot(v, w)) > 0 /\ BCmp(BMul(B(4), BSq(VDot(v, w))), BMul(VSq(v), VSq(w))) = 0) = (ChordCmp(v, w, B(2), 1) = 0)
=============================================================================
