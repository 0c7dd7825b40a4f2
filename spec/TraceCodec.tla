----------------------------- MODULE TraceCodec -----------------------------
(* Recorded encodings of described regions, and what became of valid and
   damaged byte strings.                                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Fits(t, n) == CASE t = 98 -> n = 32          \* 'b' longitude and latitude bounds
                [] t = 99 -> n = 40          \* 'c' centre, squared chord, opening angle
                [] t = 101 -> n = 112        \* 'e' matrix rows, angles, tangents
                [] t = 112 -> n >= 72 /\ n % 24 = 0   \* 'p' vertices
C == INSTANCE Codec WITH LEAVES <- {98, 99, 101, 112}, NODES <- {105, 117}, LeafOK <- Fits, LEN <- 8, RADIX <- 256
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLE i
\* doubles are 8 bytes, least significant first; all NaNs count as one
IsNaN(d) == d[8] % 128 = 127 /\ d[7] >= 240 /\ ~(d[7] = 240 /\ \A k \in 1..6 : d[k] = 0)
EqD(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))
At8(s, k) == SubSeq(s, 8 * k - 7, 8 * k)
EqDs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) \div 8 : EqD(At8(a, k), At8(b, k))
\* the bytes stand for the described tree
RECURSIVE Same(_, _)
Same(t, x) == t.t = x.t /\ IF C!IsLeaf(t) THEN EqDs(t.b, x.b) ELSE Same(t.l, x.l) /\ Same(t.r, x.r)
Enc(e) == LET t == C!Parse(e.bytes) IN
    (IF C!OK(t) /\ Same(t, e.tree) THEN {} ELSE {"bytes"})
    \cup (IF C!OK(t) /\ C!Encode(t) = e.bytes THEN {} ELSE {"layout"})
    \cup {e.bad[k] : k \in 1..Len(e.bad)}
RECURSIVE Exact(_)   \* leaves whose payload is kept as it is
Exact(t) == IF C!IsLeaf(t) THEN t.t # 98 ELSE Exact(t.l) /\ Exact(t.r)
Dec(e) == LET t == C!Parse(e.bytes)
              fits == C!OK(t) /\ (e.via = 0 \/ e.via = t.t \/ (e.via = 1 /\ t.t \in {105, 117}))
              \* an operand may be refused for its coordinates before its sibling is looked at
              compound == e.bytes # <<>> /\ e.bytes[1] \in {105, 117}
          IN (IF fits THEN (IF e.ok \/ ~e.sane THEN {} ELSE {"a complete encoding is refused"})
              ELSE (IF e.ok THEN {"a malformed byte string is accepted"} ELSE {}))
             \cup (IF ~fits /\ ~e.documented /\ ~(e.coords /\ compound) THEN {"undocumented error"} ELSE {})
             \cup (IF e.ok /\ fits /\ Exact(t) /\ e.again # e.bytes /\ ~(Len(e.again) = Len(e.bytes) /\ Same(t, C!Parse(e.again))) THEN {"other bytes"} ELSE {})
             \cup (IF e.ok /\ fits /\ ~C!OK(C!Parse(e.again)) THEN {"bytes that do not parse"} ELSE {})
             \cup (IF e.second # <<>> /\ ~Same(C!Parse(e.again), C!Parse(e.second)) THEN {"encoding is not stable"} ELSE {})
             \cup (IF e.ok /\ e.sane /\ e.again # e.bytes THEN {"lossy"} ELSE {})
             \cup {e.bad[k] : k \in 1..Len(e.bad)}
Complaints(e) == IF e.op = "enc" THEN Enc(e) ELSE Dec(e)
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Complaints(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
