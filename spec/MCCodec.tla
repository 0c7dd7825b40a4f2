------------------------------ MODULE MCCodec ------------------------------
(* The format in miniature (lengths of one digit): every byte string means at
   most one region, and no two regions share an encoding.                    *)
EXTENDS Integers, Sequences
CONSTANTS MAXLEN, MAXBYTE
Fits(t, n) == IF t = 1 THEN n = 1 ELSE n >= 2 /\ n % 2 = 0
C == INSTANCE Codec WITH LEAVES <- {1, 2}, NODES <- {3, 4}, LeafOK <- Fits, LEN <- 1, RADIX <- 8
VARIABLE s
Init == s = <<>>
Next == /\ Len(s) < MAXLEN /\ \E b \in 0..MAXBYTE : s' = Append(s, b)
Spec == Init /\ [][Next]_s
RoundTrip == LET t == C!Parse(s) IN C!OK(t) => C!Encode(t) = s
\* no proper prefix of an encoding made of leaves of one size is an encoding
PrefixFree == C!OK(C!Parse(s)) /\ s[1] # 2 => \A k \in 0..Len(s) - 1 : ~C!OK(C!Parse(SubSeq(s, 1, k)))
Leaves == {[t |-> 1, b |-> <<x>>] : x \in {0, 3}} \cup {[t |-> 2, b |-> <<x, 1>>] : x \in {0, 3}}
Trees1 == Leaves \cup {[t |-> k, l |-> a, r |-> b] : k \in {3, 4}, a \in Leaves, b \in Leaves}
ASSUME \A a \in Trees1 : C!Parse(C!Encode(a)) = a
ASSUME \A a \in Trees1, b \in Leaves : Len(C!Encode(a)) < 8 => LET t == [t |-> 3, l |-> a, r |-> b] IN C!Parse(C!Encode(t)) = t
=============================================================================
