------------------------------ MODULE MCBigInt ------------------------------
(* Self-test of the number layer: the Java overrides agree with the TLA+
   definitions and both satisfy the ring laws on boundary-rich values.        *)
EXTENDS BigInt, TLC, FiniteSets
L == {0, 1, 2, 16383, 16384, 32767}
Mags == {<<>>} \cup {<<a>> : a \in L \ {0}} \cup {<<a, b>> : a \in L, b \in L \ {0}}
        \cup {<<a, b, c>> : a \in {0, 32767}, b \in {0, 1, 32767}, c \in {1, 32767}}
Nums == {<<0>>} \cup {<<s>> \o m : s \in {-1, 1}, m \in Mags \ {<<>>}}
VARIABLES x, y
Init == x \in Nums /\ y = <<0>>
Next == y = <<0>> /\ y' \in Nums /\ x' = x
Agree == /\ BAdd(x, y) = PAdd(x, y) /\ BSub(x, y) = PSub(x, y)
         /\ BMul(x, y) = PMul(x, y) /\ BCmp(x, y) = PCmp(x, y)
         /\ BShl(x, Len(y) * 7) = PShl(x, Len(y) * 7)
Laws == /\ IsBig(BAdd(x, y)) /\ IsBig(BMul(x, y))
        /\ BSub(BAdd(x, y), y) = x
        /\ BMul(x, BAdd(y, B(1))) = BAdd(BMul(x, y), x)
        /\ BSgn(BMul(x, y)) = x[1] * y[1]
        /\ BSgn(BSub(x, y)) = BCmp(x, y)
Spec == Init /\ [][Next]_<<x, y>>
=============================================================================
