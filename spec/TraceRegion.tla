---------------------------- MODULE TraceRegion ----------------------------
(* Recorded answers of the region classes about explicitly described regions. *)
EXTENDS Sphere, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLE i

\* how exactly membership is decided by the code: within 2^-t radians of the boundary
RECURSIVE Fine(_)
Fine(R) == CASE R.k = "ell" -> 40
             [] R.k \in {"union", "inter"} -> MinI(Fine(R.r[1]), Fine(R.r[2]))
             [] OTHER -> 46
Contain(e) == LET R == Prep(e.r) t == Fine(e.r) IN
              {k \in 1..Len(e.p) : LET s == Side(R, e.p[k], t) IN (s = 1 /\ ~e.in[k]) \/ (s = -1 /\ e.in[k])}
(* A claimed relationship must hold for every witness; swapping the operands
   swaps the claims; what is clear must be claimed.  Codes of the complaints:
   k > 0 witness k refutes a claim, 0 the derived questions differ, -1 the two
   orders differ, -2 a clear nesting or separation is not reported.           *)
Claim(rel, A, C, v, t) == LET a == Side(A, v, t) b == Side(C, v, t) IN
    /\ rel.d => ~(a = 1 /\ b = 1)
    /\ rel.c => ~(a = -1 /\ b = 1)
    /\ rel.w => ~(a = 1 /\ b = -1)
RECURSIVE Coarse(_)
Coarse(R) == CASE R.k = "ell" -> 40
               [] R.k \in {"union", "inter"} -> MinI(Coarse(R.r[1]), Coarse(R.r[2]))
               [] OTHER -> 40
Compound(R) == R.k \in {"union", "inter"}   \* two compound regions are taken apart in either order
\* what follows for a union (intersection) from the relationships of its parts
Follows(e) == e.parts # <<>> => LET p == e.parts[1] q == e.parts[2] IN
    IF e.a.k = "union" THEN (p.d /\ q.d => e.ab.d) /\ (p.w /\ q.w => e.ab.w) /\ (p.c \/ q.c => e.ab.c)
    ELSE (p.c /\ q.c => e.ab.c) /\ (p.d \/ q.d => e.ab.d) /\ (p.w \/ q.w => e.ab.w)
Relate(e) ==
    LET A == Prep(e.a) C == Prep(e.b) t == MinI(Coarse(e.a), Coarse(e.b)) IN
    {k \in 1..Len(e.p) : ~Claim(e.ab, A, C, e.p[k], t)}
    \cup (IF e.derived THEN {} ELSE {0}) \cup {-100 - e.own[k] : k \in 1..Len(e.own)}
    \cup (IF ((Compound(e.a) /\ Compound(e.b)) \/ (e.ab.d = e.ba.d /\ e.ab.c = e.ba.w /\ e.ab.w = e.ba.c)) /\ e.ab.x = 0 /\ e.ba.x = 0 THEN {} ELSE {-1})
    \cup (IF /\ ClearlyWithin(A, C) => e.ab.w
             /\ ClearlyWithin(C, A) => e.ab.c
             /\ ClearlyApart(A, C) => e.ab.d
             /\ Follows(e)
          THEN {} ELSE {-2})
(* Bounding shapes hold every point of the region; for simple shapes each side
   of a bound touches the region.  Complaints: k > 0 witness k escapes, <0 see below *)
Coord(v, k) == v[k]
InBox3(b, v) == \A k \in 1..3 : BLeq(b[k][1], BAdd(v[k], P2(20))) /\ BLeq(v[k], BAdd(b[k][2], P2(20)))
Empty3(b) == \E k \in 1..3 : BLt(b[k][2], b[k][1])
NPole == <<B(0), B(0), P2(75)>>
SPole == <<B(0), B(0), BNeg(P2(75))>>
Touch(e, R) ==    \* 20 bits: about 10^-6
    LET X == {k \in 1..Len(e.x) : Side(R, e.x[k], 20) # -1}
        bb == e.bb bc == e.bc
        lo == Turn(bb.lo, 18, 1) hi == Turn(bb.hi, 18, -1)
        simple == R.k \in {"circle", "poly"}
    IN IF ~simple /\ R.k # "box" THEN {}
       ELSE (IF simple /\ ~bb.e THEN
               (IF bb.hip THEN (IF Side(R, NPole, 20) # -1 THEN {} ELSE {-1})
                ELSE IF \E k \in X : LatAbove(e.x[k], hi, 20) # -1 THEN {} ELSE {-1})
               \cup (IF bb.lop THEN (IF Side(R, SPole, 20) # -1 THEN {} ELSE {-2})
                ELSE IF \E k \in X : LatBelow(e.x[k], lo, 20) # -1 THEN {} ELSE {-2})
               \cup (IF bb.full THEN (IF Side(R, NPole, 20) # -1 \/ Side(R, SPole, 20) # -1 THEN {} ELSE {-3})
                ELSE IF /\ \E k \in X : BLeq(BSq(Cross2(bb.a, e.x[k])), P2(270 - 24))
                        /\ \E k \in X : BLeq(BSq(Cross2(bb.b, e.x[k])), P2(270 - 24)) THEN {} ELSE {-3})
             ELSE {})
            \cup (IF Proper(bc) THEN (IF \E k \in X : CircleSide(bc, e.x[k], 18) # 1 THEN {} ELSE {-4}) ELSE {})
            \cup {-5 - k : k \in {k \in 1..3 : ~Empty3(e.b3) /\ ~(\E j \in X : BLeq(e.b3[k][2], BAdd(e.x[j][k], P2(57))))}}
            \cup {-8 - k : k \in {k \in 1..3 : ~Empty3(e.b3) /\ ~(\E j \in X : BLeq(e.x[j][k], BAdd(e.b3[k][1], P2(57))))}}
Bound(e) == LET R == Prep(e.r) t == Fine(e.r) IN
    {k \in 1..Len(e.p) : Side(R, e.p[k], t) = 1 /\ (Side(e.bb, e.p[k], 46) = -1 \/ Side(e.bc, e.p[k], 46) = -1 \/ ~InBox3(e.b3, e.p[k]))}
    \cup (IF e.f /\ ~e.bf THEN {-20} ELSE {}) \cup (IF e.e /\ ~e.be THEN {-21} ELSE {})
    \cup {-100 - e.own[k] : k \in 1..Len(e.own)}
    \cup Touch(e, R)
(* A compound answers from its parts, exactly.                                *)
Comp(e) == {k \in 1..Len(e.p) : e.in[k] # (IF e.u THEN e.in0[k] \/ e.in1[k] ELSE e.in0[k] /\ e.in1[k])}
    \cup Contain([r |-> e.r, p |-> e.p, in |-> e.in])
    \cup Contain([r |-> e.self, p |-> e.p, in |-> e.in])
    \cup (IF e.parts THEN {} ELSE {-1}) \cup (IF e.copy THEN {} ELSE {-2})
(* A box dilated by a radius holds every point at most that far from it; other
   radii, the empty and the full box change nothing.  A pole within reach makes
   the longitudes full, and nothing above or below the reach is kept: the
   latitudes are those of the box moved by the radius.                        *)
Grow(e) == LET cap == BAdd(BMul(e.s, BSub(P2(36), B(1))), B(0)) IN
    {k \in 1..Len(e.p) : e.own[k] \/ (/\ e.pos /\ Side(e.x, e.q[k], 46) = 1
                                     /\ BLeq(BMul(VSq(VSub(e.p[k], e.q[k])), P2(36)), cap)
                                     /\ Side(e.z, e.p[k], 22) = -1)}
    \cup (IF e.ok THEN {} ELSE {0})
    \cup (IF (~e.pos \/ e.xe \/ e.xfull) /\ ~e.same THEN {-1} ELSE {})
    \cup (IF e.pos /\ ~e.xe /\ e.ze THEN {-2} ELSE {})
    \cup (IF \/ e.xe \/ e.xfull \/ ~e.pos THEN {}
          ELSE
               {-10 - k : k \in {k \in 1..Len(e.q) : Side(e.x, e.q[k], 46) = 1 /\ Side(e.z, e.q[k], 46) = -1}})
Bad(e) == CASE e.op = "contain" -> IF e.forms THEN Contain(e) ELSE {0}
            [] e.op = "relate" -> Relate(e)
            [] e.op = "bound" -> Bound(e)
            [] e.op = "grow" -> Grow(e)
            [] e.op = "compound" -> Comp(e)
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Bad(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
