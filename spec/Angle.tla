------------------------------- MODULE Angle -------------------------------
(* Angles on a circle of circumference C, as big integers.                    *)
EXTENDS BigInt
\* ---- the remainder of a (0 or more) divided by c (positive), by long division
RECURSIVE Up(_, _)
Up(a, c) == IF BLeq(BShl(c, 32), a) THEN 32 + Up(a, BShl(c, 32)) ELSE IF BLeq(BShl(c, 1), a) THEN 1 + Up(a, BShl(c, 1)) ELSE 0
RECURSIVE Down(_, _, _)
Down(a, c, k) == LET d == BShl(c, k) r == IF BLeq(d, a) THEN BSub(a, d) ELSE a IN IF k = 0 THEN r ELSE Down(r, c, k - 1)
Rem(a, c) == IF BLt(a, c) THEN a ELSE Down(a, c, Up(a, c))
\* the representative of a; a full turn is its own representative
Norm(a, c) == IF BSgn(a) >= 0 THEN IF BLeq(a, c) THEN a ELSE Rem(a, c)
              ELSE LET r == Rem(BNeg(a), c) IN BSub(c, r)
AngleTo(a, b, c) == IF BLt(b, a) THEN BAdd(BSub(b, a), c) ELSE BSub(b, a)
Between(a, b, c) == LET d == BAbs(BSub(a, b)) IN BMin(d, BSub(c, d))
\* twice the angle half way from a to b
Center2(a, b, c) == LET s == BAdd(a, b) IN IF BLeq(a, b) THEN s ELSE IF BLt(s, c) THEN BAdd(s, c) ELSE BSub(s, c)
=============================================================================
