------------------------------ MODULE TraceHull ------------------------------
(* Recorded hulls of point sets, each set in several orders: whether there was
   a polygon, and its vertices (as positions in the list of points; 0 for a
   vertex that is none of them).                                              *)
EXTENDS Vec, Vec3, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 8
VARIABLE i
CC(a, b, c, d) == BSgn(VDot(VCross(a, b), VCross(c, d)))
Dt(a, b) == BSgn(VDot(a, b))
R == INSTANCE Hull WITH Or <- Orient
G == INSTANCE Hull WITH Or <- Or3, CC <- CC3, Dt <- Dot3
RECURSIVE Replay(_, _, _, _)      \* the incremental construction of spec/Hull.tla
Replay(h, pts, seq, k) == IF k > Len(seq) THEN (IF Len(h) < 3 THEN <<>> ELSE h)
                          ELSE LET s == G!Step(h, pts[seq[k]]) IN IF s.ok THEN Replay(s.h, pts, seq, k + 1) ELSE <<>>
Pick(pts, v) == [k \in 1..Len(v) |-> pts[v[k]]]
Run1(e, real) == LET r == e.runs[1]
                     S == {e.pts[k] : k \in 1..Len(e.pts)}
                     here == \A k \in 1..Len(r.v) : r.v[k] > 0
                 IN IF r.ok THEN IF here /\ (IF real THEN R!IsHull(Pick(e.pts, r.v), S) ELSE G!IsHull(Pick(e.pts, r.v), S)) THEN {} ELSE {"not the hull"}
                    ELSE IF (IF real THEN R!HasHull(S) ELSE G!HasHull(S)) THEN {"a set with a hull is refused"} ELSE {}
Parallel(pts) == \E k \in 1..Len(pts) : \E m \in 1..(k - 1) : R!Same(pts[k], pts[m])
Complaints(e) ==
    IF e.op = "real" /\ Parallel(e.pts) THEN {} ELSE
    Run1(e, e.op = "real")
    \cup UNION {LET r == e.runs[k] IN
                (IF r.ok = e.runs[1].ok /\ R!Rotation(r.v, e.runs[1].v) THEN {} ELSE {"depends on the order"})
                \cup (IF r.in THEN {} ELSE {"does not contain its points"}) \cup (IF r.eq THEN {} ELSE {"unequal"})
                \cup (IF r.doc THEN {} ELSE {"undocumented error"})
                \cup (IF e.op = "grid" /\ ~(\A j \in 1..Len(r.v) : r.v[j] > 0) THEN {"foreign vertex"}
                      ELSE IF e.op = "grid" /\ ~G!Rotation(Pick(e.pts, r.v), Replay(<<>>, e.pts, r.seq, 1)) THEN {"not what the model builds"} ELSE {})
                : k \in 1..Len(e.runs)}
    \cup UNION {IF e.others[k].eq = R!Rotation(e.others[k].v, e.runs[1].v) THEN {} ELSE {"equality"} : k \in 1..Len(e.others)}
    \cup {e.bad[k] : k \in 1..Len(e.bad)}
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Complaints(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
