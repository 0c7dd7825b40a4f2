------------------------------ MODULE MCAngle ------------------------------
(* The laws of a circle with a circumference of M units.                      *)
EXTENDS Angle, TLC
CONSTANT M
C == B(M)
VARIABLES a, b
Init == a \in (-3 * M)..(3 * M) /\ b \in 0..M
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
n == Norm(B(a), C)
Mod(x) == Norm(x, C)
Same(x, y) == LET d == BAbs(BSub(x, y)) IN Rem(d, C) = B(0)
T(x, y) == AngleTo(x, y, C)
Normalized == BLeq(B(0), n) /\ BLeq(n, C) /\ Same(n, B(a)) /\ Mod(n) = n
DivisionIsRight == a >= 0 => Rem(B(a), C) = B(a % M)
RotationReaches == Same(BAdd(n, T(n, B(b))), B(b)) /\ BLeq(B(0), T(n, B(b))) /\ BLeq(T(n, B(b)), C)
BetweenIsSmaller == /\ Between(n, B(b), C) = BMin(T(n, B(b)), T(B(b), n)) \/ {n, B(b)} \subseteq {B(0), C}
                    /\ Between(n, B(b), C) = Between(B(b), n, C) /\ BLeq(BShl(Between(n, B(b), C), 1), C)
Triangle == \A x \in 0..M : BLeq(Between(n, B(b), C), BAdd(Between(n, B(x), C), Between(B(x), B(b), C)))
\* on the circle with 2 M units
CenterIsHalfWay == LET m == Center2(n, B(b), C) D == BShl(C, 1) x == BShl(n, 1) y == BShl(B(b), 1) IN
    BLeq(B(0), m) /\ BLeq(m, D) /\ AngleTo(x, m, D) = AngleTo(m, y, D) /\ AngleTo(x, m, D) = T(n, B(b))
=============================================================================
