-------------------------- MODULE TraceOrientation --------------------------
(* Recorded answers of orientation, orientationExact and the axis variants;
   vectors are given as exact integers (each vector scaled by a power of two). *)
EXTENDS Vec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 8
VARIABLE i
Axis(e) == IF e.axis = 1 THEN EX ELSE IF e.axis = 2 THEN EY ELSE EZ
Ok(e) == IF e.op = "abc" THEN
            LET o == Orient(e.a, e.b, e.c) IN
            /\ \A k \in DOMAIN e.even : e.even[k] = o
            /\ \A k \in DOMAIN e.odd : e.odd[k] = -o
         ELSE LET o == Orient(Axis(e), e.b, e.c) IN
            /\ \A k \in DOMAIN e.even : e.even[k] = o
            /\ \A k \in DOMAIN e.odd : e.odd[k] = -o
Init == i \in 1..BLOCKS
Next == i <= N /\ i' = i + BLOCKS /\ (Ok(Trace[i]) \/ PrintT(<<"REJECT", i, Trace[i].op>>))
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
