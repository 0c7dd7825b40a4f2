----------------------------- MODULE TraceCurve -----------------------------
(* Recorded calls of the curve functions, as digit sequences.                 *)
EXTENDS Curve, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLES b, i
\* index of the leading one of a bit sequence given most significant first
Lead(bits) == LET ones == {j \in DOMAIN bits : bits[j] = 1} IN
              IF ones = {} THEN 0 ELSE Len(bits) - (CHOOSE j \in ones : \A k \in ones : j <= k)
Low(s, m) == SubSeq(s, Len(s) - m + 1, Len(s))
Ok(e) ==
    CASE e.op = "morton" -> e.z = Interleave(e.x, e.y) /\ e.ix = e.x /\ e.iy = e.y
      [] e.op = "hilbert" ->   \* x, y with all 32 bits; only the m low ones count
            LET z == Interleave(Low(e.x, e.m), Low(e.y, e.m)) IN
            /\ e.h = ToHilbert(z) /\ e.h2 = e.h
            /\ e.z2 = z /\ e.ix = Low(e.x, e.m) /\ e.iy = Low(e.y, e.m) /\ e.high = 0
      [] e.op = "inverse" -> LET d == Low(e.h, e.m) z == ToMorton(d) IN
            e.z = z /\ e.ix = Xs(z) /\ e.iy = Ys(z) /\ e.back = d /\ e.high = 0
      [] e.op = "log2" -> e.r = Lead(e.x)
Init == b \in 1..BLOCKS /\ i = b
Next == /\ i <= N /\ b' = b /\ i' = i + BLOCKS
        /\ (Ok(Trace[i]) \/ PrintT(<<"REJECT", i, Trace[i].op>>))
Spec == Init /\ [][Next]_<<b, i>>
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
