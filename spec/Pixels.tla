------------------------------- MODULE Pixels -------------------------------
(* Hierarchical pixelizations of the sphere: index arithmetic and names.
   Indexes are big integers.  A pixelization k has roots Lo(k) .. Hi(k)-1 at
   level 0, and pixel i has the children 4i .. 4i+3.                          *)
EXTENDS Sphere
Lo(k) == CASE k = "htm" -> 8 [] k = "q3c" -> 0 [] k = "mq3c" -> 10 [] k = "hpx" -> 0
Hi(k) == CASE k = "htm" -> 16 [] k = "q3c" -> 6 [] k = "mq3c" -> 16 [] k = "hpx" -> 12
MaxLevel(k) == IF k = "htm" THEN 24 ELSE 30
LoB(k, l) == BShl(B(Lo(k)), 2 * l)
HiB(k, l) == BShl(B(Hi(k)), 2 * l)
InUniverse(k, l, i) == BLeq(LoB(k, l), i) /\ BLt(i, HiB(k, l))
\* HTM and modified Q3C indexes tell their level: one of 0 .. 30, or -1
LevelOf(k, i) == IF \E l \in 0..30 : InUniverse(k, l, i) THEN CHOOSE l \in 0..30 : InUniverse(k, l, i) ELSE -1
Bit(x, n) == (At(Mag(x), n \div 15 + 1) \div Pow2(n % 15)) % 2
Digit4(x, d) == 2 * Bit(x, 2 * d + 1) + Bit(x, 2 * d)
Char(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3"
\* the last n base 4 digits, most significant first
Tail4(x, n) == [j \in 1..n |-> Char(Digit4(x, n - j))]
Axis(c) == CASE c = "X" -> 1 [] c = "Y" -> 2 [] c = "Z" -> 3
Sgn(c) == IF c = "+" THEN 1 ELSE -1
\* all points (cube corners included) lie on the side of the cube that the name says
OnFace(s, a, vs) == LET x == Axis(a) IN
    \A j \in 1..Len(vs) : \A y \in 1..3 : BLeq(BAbs(vs[j][y]), BAdd(BMul(B(Sgn(s)), vs[j][x]), P2(35)))
NameOk(k, l, i, name, vs) ==
    IF k = "htm" THEN /\ Len(name) = l + 2
                      /\ name = <<IF Bit(i, 2 * l + 2) = 1 THEN "N" ELSE "S">> \o Tail4(i, l + 1)
                      /\ \A j \in 1..Len(vs) : IF name[1] = "N" THEN BSgn(vs[j][3]) >= 0 ELSE BSgn(vs[j][3]) <= 0
    ELSE /\ Len(name) = l + 2
         /\ SubSeq(name, 3, Len(name)) = Tail4(i, l)
         /\ name[1] \in {"+", "-"} /\ name[2] \in {"X", "Y", "Z"} /\ OnFace(name[1], name[2], vs)
\* sets of indexes as sequences of ranges <<first, past the end>>
RECURSIVE WellFormed(_, _)
WellFormed(rs, j) == j > Len(rs) \/ (BLt(rs[j][1], rs[j][2]) /\ (j = Len(rs) \/ BLt(rs[j][2], rs[j + 1][1])) /\ WellFormed(rs, j + 1))
InRanges(i, rs) == \E j \in 1..Len(rs) : BLeq(rs[j][1], i) /\ BLt(i, rs[j][2])
SubRanges(a, b) == \A j \in 1..Len(a) : \E m \in 1..Len(b) : BLeq(b[m][1], a[j][1]) /\ BLeq(a[j][2], b[m][2])
Poly(vs) == Prep([k |-> "poly", v |-> vs])
CornerNear(a, b, t) == BLeq(VSq(VSub(a, b)), P2(150 - 2 * t))
ShareCorner(vs, ws, t) == \E a \in 1..Len(vs) : \E b \in 1..Len(ws) : CornerNear(vs[a], ws[b], t)
=============================================================================
