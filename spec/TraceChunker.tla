---------------------------- MODULE TraceChunker ----------------------------
(* Recorded chunk and sub-chunk lists, boxes and lookups.  Angles are integers
   times 2^60.                                                               *)
EXTENDS Sphere, FiniteSets, TLC, Json, IOUtils
CK == INSTANCE Chunker
Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
BLOCKS == 16
VARIABLE i
PI60 == <<1, 12429, 4276, 23202, 4639, 3>>   \* pi times 2^60
TWOPI == BMul(B(2), PI60)
SetOf(s) == {s[k] : k \in 1..Len(s)}
Dup(s) == Cardinality(SetOf(s)) # Len(s)
(* cell j of t equal cells: the box covers it, with little slack             *)
LonOK(bx, j, t, slack) ==
    IF bx.full \/ t = 1 THEN bx.full /\ t = 1
    ELSE LET T == B(t)   \* everything times t
             lo == BMul(TWOPI, B(j)) hi == BMul(TWOPI, B(j + 1)) s == BMul(T, slack)
             a == BMul(T, IF j = 0 /\ BLeq(PI60, bx.a) THEN BSub(bx.a, TWOPI) ELSE bx.a)
             b == BMul(T, IF j + 1 = t /\ BLeq(bx.b, PI60) THEN BAdd(bx.b, TWOPI) ELSE bx.b)
         IN BLeq(a, lo) /\ BLeq(BSub(lo, s), a) /\ BLeq(hi, b) /\ BLeq(b, BAdd(hi, s))
\* the band from step p to step q of m equal steps from the south pole
LatOK(bx, p, q, m) ==
    LET M == B(2 * m)   \* latitudes times 2m
        lo == BMul(PI60, B(2 * p - m)) hi == BMul(PI60, B(2 * q - m))
        s == BMul(M, P2(24)) one == BMul(M, B(2048))
    IN /\ BLeq(BMul(M, bx.lo), BAdd(lo, one)) /\ BLeq(BSub(lo, s), BMul(M, bx.lo))
       /\ BLeq(BSub(hi, one), BMul(M, bx.hi)) /\ BLeq(BMul(M, bx.hi), BAdd(hi, s))
Slack(bx) == IF BLeq(BAbs(bx.lo), BMul(B(11), P2(57))) /\ BLeq(BAbs(bx.hi), BMul(B(11), P2(57))) THEN P2(28) ELSE P2(42)
(* One stripe.  nc chunks; nsc[y] sub-chunks per chunk in its sub-stripe y; m
   the most sub-chunks per chunk anywhere.                                   *)
StripeBad(e) ==
    LET n == e.n k == e.k s == e.s nc == Len(e.ids) IN
    (IF SetOf(e.ids) = {CK!ChunkId(n, s, c) : c \in 0..nc - 1} /\ nc >= 1 /\ nc <= 2 * n THEN {} ELSE {"ids"})
    \cup (IF \A j \in 1..Len(e.probe) : LET p == e.probe[j] IN
             /\ p.valid = (CK!StripeOf(p.id, 2 * n) = s /\ p.id >= 0 /\ CK!Position(n, p.id) < nc)
             /\ p.valid => p.stripe = s /\ p.chunk = CK!Position(n, p.id) THEN {} ELSE {"valid"})
    \cup (IF \A j \in 1..Len(e.subs) : ~Dup(e.subs[j]) /\ SetOf(e.subs[j]) = CK!SubIds(e.m, k, 0, [t \in 0..k - 1 |-> e.nsc[t + 1]]) THEN {} ELSE {"sub-ids"})
    \cup (IF (\A y \in 1..k : e.nsc[y] >= 1 /\ e.nsc[y] <= e.m) THEN {} ELSE {"counts"})
    \cup {<<"chunk box", j>> : j \in {j \in 1..Len(e.boxes) : LET b == e.boxes[j] IN
             ~(LonOK(b.box, b.c, nc, Slack(b.box)) /\ LatOK(b.box, s, s + 1, n))}}
    \cup {<<"sub-chunk box", j>> : j \in {j \in 1..Len(e.sboxes) : LET b == e.sboxes[j] IN
             ~(LonOK(b.box, b.c, nc * e.nsc[b.y + 1], Slack(b.box)) /\ LatOK(b.box, s * k + b.y, s * k + b.y + 1, n * k))}}
    \* chunks are as wide as promised, and no wider than they have to be
    \cup {<<"width", j>> : j \in {j \in 1..Len(e.width) : LET w == e.width[j] IN
             ~(/\ w.one \/ BLeq(BMul(BMul(w.h, P2(60)), BSub(P2(30), B(1))), BMul(BMul(w.sw, w.c), P2(30)))
               /\ w.pole \/ BLeq(BMul(w.sw1, w.c), BMul(BMul(w.h, P2(30)), BAdd(P2(30), P2(8)))))}}
Refuse(e) == LET big == e.k >= 1 /\ e.n >= 1 /\ (e.n > 648000 \div e.k)
                 must == e.n < 1 \/ e.k < 1 \/ big \/ e.n > 32767 \/ e.k >= 47000
                 mustnot == e.n \in 1..32000 /\ e.k \in 1..10000 /\ ~big
             IN IF (must => e.thrown) /\ (mustnot => ~e.thrown) /\ ~e.other THEN {} ELSE {"refusal"}
(* Lookups. Points carry the cell that holds them: stripe s, chunk c of nc,
   sub-stripe t, sub-chunk j of nc * nsc around the sphere.                   *)
Holds(p, n, k) == LET one == P2(27) IN
    /\ BLeq(BMul(TWOPI, B(p.c)), BMul(B(p.nc), BAdd(p.lon, one))) /\ BLeq(BMul(B(p.nc), BSub(p.lon, one)), BMul(TWOPI, B(p.c + 1)))
    /\ BLeq(BMul(TWOPI, B(p.j)), BMul(B(p.nc * p.nsc), BAdd(p.lon, one))) /\ BLeq(BMul(B(p.nc * p.nsc), BSub(p.lon, one)), BMul(TWOPI, B(p.j + 1)))
    /\ BLeq(BMul(PI60, B(2 * p.t - n * k)), BMul(B(2 * n * k), BAdd(p.lat, one))) /\ BLeq(BMul(B(2 * n * k), BSub(p.lat, one)), BMul(PI60, B(2 * p.t + 2 - n * k)))
    /\ p.s = p.t \div k /\ p.j \div p.nsc = p.c
LonApart(a, b, x, y, m) ==   \* arcs a..b and x..y (either may wrap) are more than m apart
    LET inn(u, v, w) == IF BLeq(u, v) THEN BLeq(BSub(u, m), w) /\ BLeq(w, BAdd(v, m)) ELSE BLeq(BSub(u, m), w) \/ BLeq(w, BAdd(v, m))
        wr(u, v) == BLt(v, u)
        near0(u, v) == BLeq(u, m) \/ BLeq(BSub(TWOPI, m), v)
    IN ~(inn(a, b, x) \/ inn(a, b, y) \/ inn(x, y, a) \/ inn(x, y, b) \/ (near0(a, b) /\ near0(x, y)))
Apart(bb, bx) == LET m == P2(24) pol == Slack(bx) # P2(28) \/ Slack(bb) # P2(28) IN
    \/ bb.e \/ BLt(BAdd(bb.hi, m), bx.lo) \/ BLt(BAdd(bx.hi, m), bb.lo)
    \/ ~bb.full /\ ~bx.full /\ LonApart(bb.a, bb.b, bx.a, bx.b, IF pol THEN P2(44) ELSE P2(30))
Lookup(e) ==
    LET R == Prep(e.r) n == e.n k == e.k
        chunks == SetOf(e.chunks)
        named == {e.subs[j].id : j \in 1..Len(e.subs)}
        subsOf(id) == IF id \in named THEN SetOf(e.subs[CHOOSE j \in 1..Len(e.subs) : e.subs[j].id = id].ids) ELSE {}
    IN {<<"cell", j>> : j \in {j \in 1..Len(e.p) : ~Holds(e.p[j], n, k)}}
       \cup {<<"missed", j>> : j \in {j \in 1..Len(e.p) : LET p == e.p[j] id == CK!ChunkId(n, p.s, p.c) IN
              (p.own \/ Side(R, p.v, 44) = 1) /\ ~(id \in chunks /\ id \in named /\ CK!SubId(e.m, k, p.t, p.j, p.nsc) \in subsOf(id))}}
       \cup (IF Dup(e.chunks) \/ Cardinality(named) # Len(e.subs) \/ (\E j \in 1..Len(e.subs) : Dup(e.subs[j].ids) \/ e.subs[j].ids = <<>>) THEN {"duplicate"} ELSE {})
       \cup (IF named \subseteq chunks THEN {} ELSE {"named"})
       \cup (IF e.valid THEN {} ELSE {"invalid"})
       \cup {<<"apart", j>> : j \in {j \in 1..Len(e.got) : Apart(e.bb, e.got[j])}}
Bad(e) == CASE e.op = "stripe" -> StripeBad(e)
            [] e.op = "refuse" -> Refuse(e)
            [] e.op = "lookup" -> Lookup(e)
            [] e.op = "flag" -> IF e.ok THEN {} ELSE {e.what}
Init == i \in 1..BLOCKS
Next == /\ i <= NT /\ i' = i + BLOCKS
        /\ LET b == Bad(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = NT + BLOCKS
=============================================================================
