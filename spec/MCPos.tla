-------------------------------- MODULE MCPos --------------------------------
(* Enumerates texts: well formed ones and everything up to two edits away
   (replace, drop, duplicate or insert a token), prints their meaning for the
   replay into the real parser, and checks the meaning function itself.       *)
EXTENDS Pos, TLC, IOUtils
CONSTANT Edits
VARIABLES shape, v, edits, convex
vars == <<shape, v, edits, convex>>
Toks == {0, 90, -90, 91, 10, 355, 360, -5, 45, PInf, NInf, NaN, Junk}
Bases == {<<1, <<12, 34, 5>>>>, <<1, <<0, 90, 180>>>>, <<1, <<350, -45, 0>>>>, <<1, <<-20, 10, -1>>>>,
          <<2, <<1, 2, 5, 6>>>>, <<2, <<350, 10, -90, 90>>>>, <<2, <<0, 360, -10, 10>>>>, <<2, <<NInf, PInf, NInf, PInf>>>>, <<2, <<7, 7, 3, 3>>>>,
          <<3, <<12, 34, 14, 34, 14, 36>>>>, <<3, <<350, 10, 5, 12, 3, 30, 340, 28>>>>, <<3, <<0, 80, 120, 80, 240, 80>>>>,
          <<3, <<0, -90, 20, 0, 60, 0>>>>, <<4, <<12, 34, 5>>>>, <<5, <<1, 2, 5, 6>>>>, <<6, <<>>>>}
Init == \E b \in Bases : shape = b[1] /\ v = b[2] /\ edits = 0 /\ convex = TRUE
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Next == /\ edits < Edits
        /\ edits' = edits + 1 /\ convex' = FALSE
        /\ \/ \E i \in DOMAIN v : v' = Cut(v, i) /\ shape' = shape
           \/ \E i \in DOMAIN v, x \in Toks : v' = [v EXCEPT ![i] = x] /\ shape' = shape
           \/ \E i \in 1..(Len(v) + 1), x \in Toks : Len(v) < 9 /\ v' = Ins(v, i, x) /\ shape' = shape
           \/ \E s \in 1..7 : s # shape /\ shape' = s /\ v' = v
Spec == Init /\ [][Next]_vars
M == Meaning(shape, v, convex)
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("@" \o ToString(<<shape, v, M>>)) ELSE TRUE
\* a meaning never mentions a number outside the coordinate ranges, and unbounded ranges equal the bounded ones they stand for
Sound == CASE M[1] = 2 -> Lat(M[3]) /\ M[2] \in 0..359
           [] M[1] = 3 -> M[2] \in 0..360 /\ M[3] \in 0..360 /\ Lat(M[4]) /\ Lat(M[5]) /\ M[4] <= M[5]
           [] M[1] = 4 -> Len(M) >= 7 /\ Len(M) % 2 = 1
           [] OTHER -> TRUE
Bounded(w) == [i \in DOMAIN w |-> IF i <= 2 THEN Lon(w[i]) ELSE LatOf(w[i])]
Unbounded == shape = 2 /\ Len(v) = 4 /\ M[1] = 3 => Meaning(2, Bounded(v), FALSE) = M
Inv == Sound /\ Unbounded /\ Emit
=============================================================================
