-------------------------------- MODULE Arc --------------------------------
(* Arcs of a circle with C unit positions 0..C-1, counter-clockwise from the
   first to the second end point; <<>> is empty and <<0, C>> the full circle.
   Sets are compared at witness points in doubled coordinates: every end point
   and a point just after it, which is decisive because nothing changes in
   between.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT C
Full == <<0, C>>
IsArc(a) == a = <<>> \/ a = Full \/ (Len(a) = 2 /\ a[1] \in 0..(C - 1) /\ a[2] \in 0..(C - 1))
PtArc(p) == IF p < 0 THEN <<>> ELSE <<p, p>>         \* a missing point is the empty set
LenA(a) == IF a = Full THEN C ELSE (a[2] - a[1]) % C
Mem2(q, a) == IF a = <<>> THEN FALSE ELSE IF a = Full THEN TRUE ELSE (q - 2 * a[1]) % (2 * C) <= 2 * LenA(a)
EndsA(a) == IF a = <<>> \/ a = Full THEN {0} ELSE {a[1], a[2]}
Wit(x, y) == {(2 * e) : e \in EndsA(x) \cup EndsA(y)} \cup {(2 * e + 1) % (2 * C) : e \in EndsA(x) \cup EndsA(y)}
SubA(x, y)  == \A q \in Wit(x, y) : Mem2(q, x) => Mem2(q, y)
MeetsA(x, y) == \E q \in Wit(x, y) : Mem2(q, x) /\ Mem2(q, y)
Cand(x, y) == {<<>>, Full} \cup {<<p, q>> : p \in EndsA(x) \cup EndsA(y), q \in EndsA(x) \cup EndsA(y)}
Cost(a) == IF a = <<>> THEN -1 ELSE LenA(a)
CoversMeet(r, x, y) == \A q \in Wit(x, y) : Mem2(q, x) /\ Mem2(q, y) => Mem2(q, r)
CoversBoth(r, x, y) == SubA(x, r) /\ SubA(y, r)
\* a smallest arc covering the intersection (of both, for two pieces)
ClipOK(r, x, y) == r \in Cand(x, y) /\ CoversMeet(r, x, y)
                   /\ \A s \in Cand(x, y) : CoversMeet(s, x, y) => Cost(r) <= Cost(s)
\* a smallest arc covering both
JoinOK(r, x, y) == r \in Cand(x, y) /\ CoversBoth(r, x, y)
                   /\ \A s \in Cand(x, y) : CoversBoth(s, x, y) => Cost(r) <= Cost(s)
\* move both ends outwards by d (inwards when negative); 2d + length = C is a tie
DilateA(a, d) == IF a = <<>> \/ a = Full \/ d = 0 THEN a
                 ELSE IF 2 * d + LenA(a) >= C THEN Full
                 ELSE IF 2 * d + LenA(a) < 0 THEN <<>>
                 ELSE <<(a[1] - d) % C, (a[2] + d) % C>>
WrapsA(a) == a # <<>> /\ a # Full /\ a[1] > a[2]
\* the centre in doubled coordinates
Center2A(a) == (2 * a[1] + LenA(a)) % (2 * C)
=============================================================================
