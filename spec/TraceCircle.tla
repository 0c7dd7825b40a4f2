---------------------------- MODULE TraceCircle ----------------------------
(* Recorded histories of operations on circles.  A circle is a cap: the points
   within an angle of its centre, nothing, or everything.  Each event has the
   circle x before and z after the operation, the other operand y, and witness
   points p.                                                                  *)
EXTENDS Sphere, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLE i
T == 44
If(b, x) == IF b THEN {} ELSE {x}
Empty(C) == BSgn(C.s) < 0
Full(C) == BLeq(P2(152), C.s)
\* |a - b| <= 2^-t max(a, b) + 2^(-abs) in units of 2^-150
Close(a, b, t, abs) == BLeq(BShl(BAbs(BSub(a, b)), t), BAdd(BMax(BAbs(a), BAbs(b)), P2(150 - abs + t)))
PI60 == <<1, 12429, 4276, 23202, 4639, 3>>   \* pi times 2^60
Agree(C) ==
    If(C.empty = Empty(C) /\ C.full = Full(C), "flags")
    \cup If(BLeq(BAbs(BSub(VSq(C.c), P2(150))), P2(150 - 48)), "unit")
    \cup (IF Empty(C) THEN If(BSgn(C.area) = 0, "area")
          ELSE IF Full(C) THEN {}
          ELSE If(Close(C.s, BShl(BSq(C.h), 2), T, 48) /\ BSgn(C.ang) >= 0, "chord"))
\* the area is pi times the squared chord length
Area(C) == IF Empty(C) THEN {} ELSE LET q == BMul(IF Full(C) THEN P2(152) ELSE C.s, PI60) IN
    If(BLeq(BShl(BAbs(BSub(BShl(C.area, 60), q)), 46), BAdd(q, P2(150))), "area")
Clip(e) ==
    {<<"lost", k>> : k \in {k \in 1..Len(e.p) : In(e.x, e.p[k], T) /\ In(e.y, e.p[k], T) /\ Out(e.z, e.p[k], T)}}
    \cup If(\E o \in {e.x, e.y} : \A k \in 1..Len(e.p) : ~(In(e.z, e.p[k], T) /\ Out(o, e.p[k], T)), <<"outside">>)
    \cup If(Empty(e.z) \/ ((Full(e.x) \/ BLeq(e.z.s, BAdd(e.x.s, P2(102)))) /\ (Full(e.y) \/ BLeq(e.z.s, BAdd(e.y.s, P2(102))))), <<"larger">>)
    \cup If(CirclesApart(e.x, e.y) => Empty(e.z), <<"apart">>)
\* unless one circle holds the other, twice the opening angle of the smallest circle covering
\* both is the sum of their opening angles and the distance of their centres
Tight(e) == (Proper(e.x) /\ Proper(e.y) /\ ~Empty(e.z)) =>
    \/ BLeq(e.z.ang, BAdd(BMax(e.x.ang, e.y.ang), P2(37)))
    \/ LET d == BSub(BSub(BShl(e.z.ang, 1), BAdd(e.x.ang, e.y.ang)), P2(37))
           u == DiffDir(DiffDir(SumDir(e.z.o, e.z.o), e.x.o), e.y.o)
       IN BSgn(d) <= 0 \/ (BLeq(d, PI60) /\ BLeq(BShl(CosD(e.x.c, e.y.c), 90), BAdd(u[1], P2(240 - 23))))
Expand(e) ==
    {<<"uncovered", k>> : k \in {k \in 1..Len(e.p) : (In(e.x, e.p[k], T) \/ In(e.y, e.p[k], T)) /\ Out(e.z, e.p[k], T)}}
    \cup If(Empty(e.x) => (Empty(e.y) <=> Empty(e.z)), <<"empty">>)
    \cup If(Tight(e), <<"wide">>)
Dilate(e) == LET s == BAdd(e.x.ang, e.r) tol == P2(60 - 48) IN
    IF Empty(e.x) THEN If(Empty(e.z), <<"empty">>)
    ELSE IF Full(e.x) THEN If(Full(e.z), <<"full">>)
    ELSE If(e.z.c = e.x.c, <<"centre">>)
         \cup If(BSgn(BAdd(s, tol)) < 0 => Empty(e.z), <<"notempty">>)
         \cup If(BSgn(BSub(s, tol)) >= 0 => ~Empty(e.z), <<"vanished">>)
         \cup If(Proper(e.z) => BLeq(BAbs(BSub(e.z.ang, s)), tol), <<"angle">>)
         \cup If(BLeq(BAdd(PI60, tol), s) => Full(e.z), <<"notfull">>)
         \cup If(Full(e.z) => BLeq(BSub(PI60, P2(60 - 25)), s), <<"full">>)
Comp(e) ==
    \* (the complement of what is a point to within the rounding of 4 - s is everything)
    (IF BLeq(e.x.s, P2(150 - 52)) /\ Full(e.z) THEN {} ELSE {<<"both", k>> : k \in {k \in 1..Len(e.p) : In(e.x, e.p[k], T) /\ In(e.z, e.p[k], T)}})
    \cup {<<"neither", k>> : k \in {k \in 1..Len(e.p) : Out(e.x, e.p[k], T) /\ Out(e.z, e.p[k], T)}}
    \cup If((Empty(e.x) => Full(e.z)) /\ (Full(e.x) => Empty(e.z)), <<"extremes">>)
Query(e) ==
    {<<"point", k>> : k \in {k \in 1..Len(e.p) : LET a == Side(e.x, e.p[k], T) b == Side(e.y, e.p[k], T) IN
          ((e.c \/ e.rc) /\ b = 1 /\ a = -1) \/ ((e.w \/ e.rw) /\ a = 1 /\ b = -1) \/ ((e.d \/ e.rd) /\ a = 1 /\ b = 1)}}
    \cup If(e.n = ~e.d /\ e.ne = ~e.eq, <<"negations">>)
    \cup If(e.eq <=> ((Empty(e.x) /\ Empty(e.y)) \/ (Full(e.x) /\ Full(e.y)) \/ (e.x.c = e.y.c /\ e.x.s = e.y.s /\ e.x.ang = e.y.ang /\ ~e.x.nan /\ ~e.y.nan)), <<"equal">>)
    \cup If(e.eq => (e.c /\ e.w), <<"selfcontains">>)
    \cup If((Empty(e.y) => e.c /\ e.d /\ e.rc /\ e.rd) /\ (Empty(e.x) => e.w /\ e.d /\ e.rw /\ e.rd) /\ (Full(e.x) => e.c /\ e.rc) /\ (Full(e.y) => e.w /\ e.rw), <<"extremes">>)
    \cup If((CircleInCircle(e.y, e.x) => e.c /\ e.rc) /\ (CircleInCircle(e.x, e.y) => e.w /\ e.rw) /\ (CirclesApart(e.x, e.y) => e.d /\ e.rd), <<"missed">>)
    \cup If(e.pok, <<"forms">>)
    \cup LET s == Side(e.x, e.pp, T) IN If(~(s = 1 /\ ~e.pc) /\ ~(s = -1 /\ e.pc), <<"member">>)
Conv(e) == IF e.neg THEN If(BSgn(e.s) < 0 /\ e.bneg, <<"negative">>)
           ELSE IF e.big THEN If(BLeq(P2(152), e.s), <<"full">>)
           ELSE If(BSgn(e.s) >= 0 /\ ~e.bneg /\ Close(e.s, BShl(BSq(e.h), 2), T, 102) /\ Close(e.s, BShl(BSq(e.hb), 2), T, 102), <<"conversion">>)
Judge(e) == CASE e.op = "clip" -> Clip(e) [] e.op = "expand" -> Expand(e) [] e.op = "dilate" -> Dilate(e) [] e.op = "comp" -> Comp(e) [] e.op = "query" -> Query(e)
Bad(e) == IF e.op = "conv" THEN Conv(e)
          ELSE Judge(e) \cup If(e.ok, <<"forms">>) \cup If(Len(e.own) = 0, <<"own", e.own>>)
               \cup {<<"z", a>> : a \in Agree(e.z)} \cup {<<"x", a>> : a \in Agree(e.x)} \cup {<<"z", a>> : a \in Area(e.z)}
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Bad(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
