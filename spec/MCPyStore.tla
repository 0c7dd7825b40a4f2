------------------------------ MODULE MCPyStore ------------------------------
(* Objects never influence each other: in every behaviour an object changes
   only in a step that names it, and after a copy later changes to either
   object leave the other one alone.                                         *)
EXTENDS PyStore, FiniteSets
CONSTANT V
Values == 1..V
F(f, x, y) == ((x * f + y) % V) + 1  \* some operations
VARIABLE named, twin  \* the slot the last step may change; <<a, b, value>>: b was copied from a and neither changed since
vars == <<store, named, twin>>
Init == SInit /\ named = 0 /\ twin = <<>>
Broken(d) == IF twin # <<>> /\ d \in {twin[1], twin[2]} THEN <<>> ELSE twin
Next == \/ \E d \in Slots, x \in Values : Call(<<0>>, <<x>>, d, x, FALSE) /\ named' = d /\ twin' = Broken(d)
        \/ \E a, b \in Slots, f \in 1..2, d \in Slots \cup {0} :
             /\ store[a] # None /\ store[b] # None
             /\ Call(<<a, b>>, <<store[a], store[b]>>, d, F(f, store[a], store[b]), FALSE)
             /\ named' = d /\ twin' = Broken(d)
        \/ \E a \in Slots : store[a] # None /\ Call(<<a>>, <<store[a]>>, 0, 0, TRUE) /\ named' = 0 /\ twin' = twin
        \/ \E a, d \in Slots : Copy(a, d) /\ named' = d /\ twin' = IF a = d THEN Broken(d) ELSE <<a, d, store[a]>>
Spec == Init /\ [][Next]_vars
TypeOK == store \in [Slots -> {None} \cup Values]
Apart == [][\A s \in Slots : store'[s] # store[s] => s = named']_vars
Twins == twin # <<>> => store[twin[1]] = twin[3] /\ store[twin[2]] = twin[3]
=============================================================================
