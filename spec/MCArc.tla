------------------------------- MODULE MCArc -------------------------------
(* Every pair of arcs on a small circle: the witness based definitions against
   membership of every doubled position, and the laws of the operations.       *)
EXTENDS Arc, TLC
VARIABLES x, y
Arcs == {<<>>, Full} \cup ((0..(C - 1)) \X (0..(C - 1)))
Set(a) == {q \in 0..(2 * C - 1) : Mem2(q, a)}
Init == x \in Arcs /\ y \in Arcs
Next == /\ y' = y
        /\ \/ \E r \in Cand(x, y) : (ClipOK(r, x, y) \/ JoinOK(r, x, y)) /\ x' = r
           \/ \E d \in -C..C : x' = DilateA(x, d)
Spec == Init /\ [][Next]_<<x, y>>
Laws == /\ x \in Arcs
        /\ SubA(x, y) = (Set(x) \subseteq Set(y))
        /\ MeetsA(x, y) = (Set(x) \cap Set(y) # {})
        /\ \E r \in Cand(x, y) : ClipOK(r, x, y)
        /\ \E r \in Cand(x, y) : JoinOK(r, x, y)
        /\ \A r \in Cand(x, y) : ClipOK(r, x, y) =>
               /\ Set(x) \cap Set(y) \subseteq Set(r)
               /\ Cardinality({q \in Set(r) : ~Mem2(q, x)}) = 0 \/ Cardinality({q \in Set(r) : ~Mem2(q, y)}) = 0
               /\ \A s \in Arcs : Set(x) \cap Set(y) \subseteq Set(s) => Cost(r) <= Cost(s)
        /\ \A r \in Cand(x, y) : JoinOK(r, x, y) =>
               \A s \in Arcs : Set(x) \cup Set(y) \subseteq Set(s) =>
                   Cost(r) <= Cost(s) \/ Set(s) = 0..(2 * C - 1)
        /\ \A d \in 0..C : SubA(x, DilateA(x, d)) /\ SubA(DilateA(x, -d), x)
        /\ \A d \in 1..C : DilateA(x, d) \notin {<<>>, Full} => DilateA(DilateA(x, d), -d) = x
        /\ \A d \in 1..C : x # <<>> => Set(DilateA(x, d)) = {q \in 0..(2*C-1) : \E p \in Set(x) : (p - q) % (2*C) <= 2*d \/ (q - p) % (2*C) <= 2*d}
=============================================================================
