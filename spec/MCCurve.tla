------------------------------ MODULE MCCurve ------------------------------
(* The automaton really is the Hilbert curve: one walk over all cells of every
   grid up to 2^M x 2^M in which successive cells share an edge, refining the
   coarser walk, and ToMorton inverts ToHilbert.                              *)
EXTENDS Curve
CONSTANT M
VARIABLES m, h
Cell(k, n) == LET z == ToMorton(Digits(n, 4, k)) IN <<Val(Xs(z), 2), Val(Ys(z), 2)>>
Abs(v) == IF v < 0 THEN -v ELSE v
Init == m \in 1..M /\ h = 0
Next == h + 1 < Pw(4, m) /\ h' = h + 1 /\ m' = m
Spec == Init /\ [][Next]_<<m, h>>
Step == [][LET p == Cell(m, h) q == Cell(m, h + 1) IN Abs(p[1] - q[1]) + Abs(p[2] - q[2]) = 1]_<<m, h>>
Laws == LET d == Digits(h, 4, m) z == ToMorton(d) IN
        /\ ToHilbert(z) = d
        /\ ToMorton(ToHilbert(d)) = d
        /\ m > 1 => SubSeq(z, 1, m - 1) = ToMorton(SubSeq(d, 1, m - 1))
        /\ Interleave(Xs(z), Ys(z)) = z
=============================================================================
