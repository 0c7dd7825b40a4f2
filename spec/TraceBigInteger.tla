-------------------------- MODULE TraceBigInteger --------------------------
(* Histories of four BigInteger objects with caller supplied storage.         *)
EXTENDS BigInteger, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S
Ev == Trace[t].ev
E  == Ev[l]
W(e) == IF e.op \in {"setu", "seti"} THEN e.w ELSE B(0)
Nn(e) == IF e.op = "shl" THEN e.n ELSE 0
Ok(e) == LET x == S[e.o] y == S[e.p] r == Result(e.op, x, y, W(e), Nn(e)) cap == Trace[t].caps[e.o] IN
         /\ IF e.thr THEN MayRefuse(e.op, x, y, Nn(e), e.o = e.p, cap) ELSE ~MustRefuse(r, cap)
         /\ e.v = (IF e.thr THEN x ELSE r)
         /\ IsBig(e.v)
         /\ e.size = NDigits(e.v)
         /\ e.cap = cap /\ e.other
TInit == t \in 1..Len(Trace) /\ l = 1 /\ S = [o \in 1..4 |-> B(0)]
TNext == /\ l >= 1 /\ l <= Len(Ev) /\ t' = t
         /\ IF Ok(E) THEN S' = [S EXCEPT ![E.o] = E.v] /\ l' = l + 1
            ELSE PrintT(<<"REJECT", t, l, E.op, E.o, E.p, E.thr>>) /\ l' = 0 /\ S' = S
TSpec == TInit /\ [][TNext]_<<t, l, S>>
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Trace))
=============================================================================
