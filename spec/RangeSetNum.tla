---------------------------- MODULE RangeSetNum ----------------------------
(* Coarsening and scaling of range sets by value.  A set of integers below M
   (M is a power of two standing for 2^64, or effectively unbounded) is given by
   its canonical range list; ends are exclusive and M itself is a legal end.
   Simplify and Scale are stated on the range list exactly as documented, using
   arithmetic supplied by the instantiating module through small operators.    *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- on plain sets of small integers 0..M-1
Runs(s, M) == {<<b, e>> \in (0..(M - 1)) \X (1..M) :
                 /\ b < e /\ b \in s /\ (b - 1) \notin s /\ e \notin s
                 /\ \A i \in b..(e - 1) : i \in s}
Down(v, g) == (v \div g) * g
Up(v, g)   == ((v + g - 1) \div g) * g
Min2(a, b) == IF a < b THEN a ELSE b
\* g = 2^n is the granule
SimplifySet(s, g, M) == UNION {Down(r[1], g)..Min2(M - 1, Up(r[2], g) - 1) : r \in Runs(s, M)}
ScaleSet(s, k, M)    == UNION {(r[1] * k)..Min2(M - 1, r[2] * k - 1) : r \in Runs(s, M)}

\* ---- documented consequences
Superset(s, g, M)   == s \subseteq SimplifySet(s, g, M)
NoMoreRuns(s, g, M) == Cardinality(Runs(SimplifySet(s, g, M), M)) <= Cardinality(Runs(s, M))
Aligned(s, g, M)    == \A r \in Runs(SimplifySet(s, g, M), M) : r[1] % g = 0 /\ (r[2] % g = 0 \/ r[2] = M)
Idempotent(s, g, M) == SimplifySet(SimplifySet(s, g, M), g, M) = SimplifySet(s, g, M)
ScaleCommutes(s, k, g, M) == \* scaling by a granule then coarsening by it changes nothing
    SimplifySet(ScaleSet(s, g, M), g, M) = ScaleSet(s, g, M)
=============================================================================
