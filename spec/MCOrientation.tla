--------------------------- MODULE MCOrientation ---------------------------
(* The algebra of the orientation predicate, for all small integer vectors.   *)
EXTENDS Vec, TLC
CONSTANT M
V == {<<B(x), B(y), B(z)>> : x \in -M..M, y \in -M..M, z \in -M..M}
VARIABLES a, b, c
Init == a \in V /\ b = EX /\ c = EX
Next == /\ b = EX /\ c = EX /\ a' = a /\ b' \in V /\ c' \in V
Spec == Init /\ [][Next]_<<a, b, c>>
Dependent == \E i \in -2*M*M..2*M*M, j \in -2*M*M..2*M*M, k \in -2*M*M..2*M*M :
                (i # 0 \/ j # 0 \/ k # 0) /\ VZero(VAdd(VAdd(VScale(B(i), a), VScale(B(j), b)), VScale(B(k), c)))
Algebra == LET o == Orient(a, b, c) IN
    /\ o \in {-1, 0, 1}
    /\ Orient(b, a, c) = -o /\ Orient(a, c, b) = -o /\ Orient(c, b, a) = -o
    /\ Orient(b, c, a) = o /\ Orient(c, a, b) = o
    /\ Orient(VNeg(a), VNeg(b), c) = o /\ Orient(VNeg(a), b, c) = -o
    /\ (VZero(a) \/ VZero(b) \/ VZero(c) => o = 0)
    /\ (VSame(a, b) \/ VSame(a, VNeg(b)) => o = 0)
Rank == M = 1 => ((Orient(a, b, c) = 0) <=> Dependent)
=============================================================================
