----------------------------- MODULE MCInterval -----------------------------
(* The interval operations against their meaning as sets of points: witness
   points are all (doubled) positions, so gaps between end points count.       *)
EXTENDS Interval, FiniteSets, TLC
CONSTANT M
E == 0..M
Valid == {<<>>} \cup {iv \in [1..2 -> E] : iv[1] <= iv[2]}
Set(i) == IF i = <<>> THEN {} ELSE (2 * i[1])..(2 * i[2])
VARIABLES x, y
Init == x \in Valid /\ y \in Valid
Next == /\ y' = y
        /\ \/ x' = Meet(x, y) \/ x' = Hull(x, y)
           \/ \E k \in -M..M : LET d == Dilate(x, k) IN Leq(d, <<0, M>>) /\ x' = d
Laws == /\ Leq(x, y) = (Set(x) \subseteq Set(y))
        /\ Meets(x, y) = (Set(x) \cap Set(y) # {})
        /\ Set(Meet(x, y)) = Set(x) \cap Set(y)
        /\ Set(x) \cup Set(y) \subseteq Set(Hull(x, y))
        /\ \A h \in Valid : Leq(x, h) /\ Leq(y, h) => Leq(Hull(x, y), h)
        /\ \A k \in 0..M : Leq(Dilate(x, -k), x) /\ Leq(x, Dilate(x, k))
                           /\ Set(Dilate(x, -k)) = {p \in Set(x) : (p - 2 * k)..(p + 2 * k) \subseteq Set(x)}
                           /\ (x # <<>> => Dilate(Dilate(x, k), -k) = x)
        /\ x \in Valid
Spec == Init /\ [][Next]_<<x, y>>
=============================================================================
