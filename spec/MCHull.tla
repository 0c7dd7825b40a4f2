------------------------------- MODULE MCHull -------------------------------
(* Directions arrive one by one in any order; the incremental construction
   always holds the hull of what has arrived, and refuses exactly when there is
   none. Directions are the 26 integer vectors with components -1, 0 and 1.   *)
EXTENDS Vec3, Sequences, FiniteSets, TLC
CONSTANTS MaxSeen, Octants
H == INSTANCE Hull WITH Or <- Or3, CC <- CC3, Dt <- Dot3
Rays == {<<x, y, z>> : x \in -1..1, y \in -1..1, z \in (IF Octants THEN -1..1 ELSE 0..1)} \ {<<0, 0, 0>>}
VARIABLES h, seen, ok
vars == <<h, seen, ok>>
Init == h = <<>> /\ seen = {} /\ ok = TRUE
Arrive(v) == LET s == H!Step(h, v) IN ok /\ Cardinality(seen \cup {v}) <= MaxSeen /\ h' = s.h /\ ok' = s.ok /\ seen' = seen \cup {v}
Next == \E v \in Rays : Arrive(v)
Spec == Init /\ [][Next]_vars
\* 0 is a positive combination of some of S (Gordan, Caratheodory)
Line(S) == \/ \E a, b \in S : H!Anti(a, b)
           \/ \E a, b, c \in S : Or3(a, b, c) = 0 /\ CC3(a, b, b, c) > 0 /\ CC3(b, c, c, a) > 0 /\ CC3(c, a, a, b) > 0
           \/ \E a, b, c, d \in S : Or3(a, b, c) > 0 /\ Or3(d, c, b) > 0 /\ Or3(d, a, c) > 0 /\ Or3(d, b, a) > 0
Flat(S) == \A a, b, c \in S : Or3(a, b, c) = 0
Holds == IF ok /\ Len(h) >= 3 THEN H!IsHull(h, seen) ELSE ~H!HasHull(seen)
Refused == ok = ~Line(seen)
Criterion == H!HasHull(seen) <=> (~Line(seen) /\ ~Flat(seen))
Arc2 == (ok /\ Len(h) = 2) => \A s \in seen : Or3(h[1], h[2], s) = 0 /\ H!OnArc(h[1], h[2], s)
=============================================================================
