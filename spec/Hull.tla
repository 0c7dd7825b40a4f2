-------------------------------- MODULE Hull --------------------------------
(* Convex hulls of finite sets of directions, given the signs of
   Or(a,b,c) = a . (b x c),  CC(a,b,c,d) = (a x b) . (c x d),  Dt(a,b) = a . b *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Or(_, _, _), CC(_, _, _, _), Dt(_, _)
Par(a, b) == CC(a, b, a, b) = 0
Same(a, b) == Par(a, b) /\ Dt(a, b) > 0
Anti(a, b) == Par(a, b) /\ Dt(a, b) < 0
\* s, in the plane of p and q, is on the short arc from p to q
OnArc(p, q, s) == CC(p, s, p, q) >= 0 /\ CC(s, q, p, q) >= 0
\* the arc from p to q is an edge of the hull of S: all of S is left of it or on it
IsEdge(S, p, q) == /\ ~Par(p, q)
                   /\ \A s \in S : Or(p, q, s) > 0 \/ (Or(p, q, s) = 0 /\ OnArc(p, q, s))
                   /\ \E s \in S : Or(p, q, s) > 0
\* the hull is a convex polygon
HasHull(S) == \E p \in S : \E q \in S : IsEdge(S, p, q)
\* v lists the vertices of the hull of S, counter-clockwise; any two such lists
\* are rotations of each other
Nx(v, k) == v[(k % Len(v)) + 1]
IsHull(v, S) == /\ Len(v) >= 3
                /\ \A k \in 1..Len(v) : v[k] \in S
                /\ \A k \in 1..Len(v) :
                     /\ \A m \in 1..Len(v) : m = k \/ m = (k % Len(v)) + 1 \/ Or(v[k], Nx(v, k), v[m]) > 0
                     /\ \A s \in S : Or(v[k], Nx(v, k), s) >= 0
Rotation(v, w) == Len(v) = Len(w) /\ (Len(v) = 0 \/ \E r \in 0..(Len(v) - 1) : \A k \in 1..Len(v) : w[k] = v[((k + r - 1) % Len(v)) + 1])

\* ---- incremental construction: h is the hull of what has been inserted
Prev(h, j) == IF j = 1 THEN Len(h) ELSE j - 1
Insert(h, v) ==
    LET left(j) == Or(v, h[Prev(h, j)], h[j]) > 0       \* the edge ending at j sees v on its left
        n == Len(h)
    IN IF \A j \in 1..n : left(j) THEN [ok |-> TRUE, h |-> h]
       ELSE IF \A j \in 1..n : ~left(j) THEN [ok |-> FALSE, h |-> <<>>]
       ELSE LET from == CHOOSE j \in 1..n : ~left(j) /\ left(Prev(h, j))
                to == CHOOSE j \in 1..n : ~left(j) /\ left((j % n) + 1)
                m == ((from - 1 - to) % n) + 1             \* vertices kept: to, ..., from - 1
                keep == IF from = to THEN n ELSE m
            IN IF from = to /\ Or(v, h[Prev(h, from)], h[from]) = 0 THEN [ok |-> TRUE, h |-> h]
               ELSE [ok |-> TRUE, h |-> <<v>> \o [k \in 1..keep |-> h[((to + k - 2) % n) + 1]]]
\* the coplanar start: h is <<>>, one direction, or the ends of an arc
Start(h, v) ==
    IF h = <<>> THEN [ok |-> TRUE, h |-> <<v>>]
    ELSE IF Len(h) = 1 THEN IF Anti(h[1], v) THEN [ok |-> FALSE, h |-> <<>>] ELSE IF Same(h[1], v) THEN [ok |-> TRUE, h |-> h] ELSE [ok |-> TRUE, h |-> <<h[1], v>>]
    ELSE LET o == Or(h[1], h[2], v) IN
         IF o > 0 THEN [ok |-> TRUE, h |-> <<h[1], h[2], v>>] ELSE IF o < 0 THEN [ok |-> TRUE, h |-> <<h[2], h[1], v>>]
         ELSE IF OnArc(h[1], h[2], v) THEN [ok |-> TRUE, h |-> h]
         ELSE IF OnArc(h[1], v, h[2]) /\ ~Par(h[1], v) THEN [ok |-> TRUE, h |-> <<h[1], v>>]
         ELSE IF OnArc(v, h[2], h[1]) /\ ~Par(v, h[2]) THEN [ok |-> TRUE, h |-> <<v, h[2]>>]
         ELSE [ok |-> FALSE, h |-> <<>>]
Step(h, v) == IF Len(h) < 3 THEN Start(h, v) ELSE Insert(h, v)
=============================================================================
