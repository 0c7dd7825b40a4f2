--------------------------- MODULE MCRangeSetNum ---------------------------
(* Every subset of 0..2^W-1, every granule and small factor: checks the laws and
   (EMIT) prints the expected results for replay into the code, both with the
   universe aligned to the top of the 64 bit integers and at the bottom.        *)
EXTENDS RangeSetNum, TLC, IOUtils
CONSTANT W
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
M == P2(W)
EMIT == "EMIT" \in DOMAIN IOEnv
RECURSIVE MaskFrom(_, _)
MaskFrom(s, i) == IF i >= 2 * M THEN 0 ELSE (IF i \in s THEN 1 ELSE 0) + 2 * MaskFrom(s, i + 1)
Mask(s) == MaskFrom(s, 0)
Out(op, args) == IF EMIT THEN PrintT("@" \o op \o ToString(args)) ELSE TRUE
VARIABLES s, done
Init == s \in SUBSET (0..(M - 1)) /\ done = FALSE
Bottom == SUBSET (0..(M \div 2 - 1))   \* results of bottom sets stay below M for the factors used
Coarsen(n) == /\ Out("sit", <<Mask(s), n, Mask(SimplifySet(s, P2(n), M))>>)
              /\ s \in Bottom => Out("sib", <<Mask(s), n, Mask(SimplifySet(s, P2(n), 2 * M))>>)
Scale(k) == /\ Out("sct", <<Mask(s), k, Mask(ScaleSet(s, k, M))>>)
            /\ s \in Bottom /\ k <= 2 => Out("scb", <<Mask(s), k, Mask(ScaleSet(s, k, 2 * M))>>)
Next == /\ ~done /\ done' = TRUE /\ s' = s
        /\ \A n \in 0..W : Coarsen(n)
        /\ \A k \in 0..(M + 1) : Scale(k)
Laws == \A n \in 0..W : LET g == P2(n) IN
          /\ Superset(s, g, M) /\ NoMoreRuns(s, g, M) /\ Aligned(s, g, M) /\ Idempotent(s, g, M)
          /\ ScaleCommutes(s, 3, g, M)
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
