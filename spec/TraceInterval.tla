---------------------------- MODULE TraceInterval ----------------------------
(* Histories of real Interval1d / AngleInterval / Box3d objects.  Each line is
   one history over three objects: kind "iv" or "b3", ev the events.           *)
EXTENDS Interval, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S
Kind == Trace[t].kind
Ev == Trace[t].ev
E  == Ev[l]
IsB == Kind = "b3"
\* value of a constructor argument: raw end points (may be reversed or missing)
Raw(r) == IF IsB THEN B3([n \in 1..3 |-> Iv(r[n][1], r[n][2])]) ELSE Iv(r[1], r[2])
PtOf(p) == IF IsB THEN B3([n \in 1..3 |-> Pt(p[n])]) ELSE Pt(p)
LeX(i, j) == IF IsB THEN BLe(i, j) ELSE Leq(i, j)
MeetsX(i, j) == IF IsB THEN BMeets(i, j) ELSE Meets(i, j)
MeetX(i, j) == IF IsB THEN BMeet(i, j) ELSE Meet(i, j)
HullX(i, j) == IF IsB THEN BHull(i, j) ELSE Hull(i, j)
DilateX(i, k) == IF IsB THEN BDilate(i, k) ELSE Dilate(i, k)
Neg(k) == IF k = NAN THEN NAN ELSE -k
NegX(k) == IF IsB THEN [n \in 1..3 |-> Neg(k[n])] ELSE Neg(k)
Post(e) ==
    CASE e.op = "set"  -> Raw(e.r)
      [] e.op = "clip" -> MeetX(S[e.o], S[e.p])
      [] e.op = "exp"  -> HullX(S[e.o], S[e.p])
      [] e.op = "clipp" -> MeetX(S[e.o], PtOf(e.x))
      [] e.op = "expp" -> HullX(S[e.o], PtOf(e.x))
      [] e.op = "dil"  -> DilateX(S[e.o], e.k)
      [] e.op = "ero"  -> DilateX(S[e.o], NegX(e.k))
      [] e.op = "asg"  -> S[e.p]
      [] OTHER -> S[e.o]
Fullness(v) == IF IsB THEN \A n \in 1..3 : v # <<>> /\ v[n] = Whole ELSE v = Whole
SizeOK(v, e) == v # <<>> =>
     IF IsB THEN \A n \in 1..3 : HasSize(v[n]) => e.size[n] = Size(v[n]) /\ (Size(v[n]) # INF => e.cen[n] = Center2(v[n]))
     ELSE HasSize(v) => e.size = Size(v) /\ (Size(v) # INF => e.cen = Center2(v))
ObsOK(e, v) ==
    CASE e.op = "q"  -> e.ans = Answer(LeX(S[e.o], S[e.p]), LeX(S[e.p], S[e.o]), MeetsX(S[e.o], S[e.p]), S[e.o] = S[e.p])
      [] e.op = "qp" -> LET p == PtOf(e.x) IN
                        e.ans = Answer(LeX(S[e.o], p), LeX(p, S[e.o]), MeetsX(S[e.o], p), S[e.o] = p)
      [] OTHER -> /\ e.empty = (v = <<>>) /\ e.full = Fullness(v)
                  /\ (v # <<>> => e.post = v)
                  /\ e.cpempty = (v = <<>>) /\ (v # <<>> => e.cp = v)
                  /\ e.kept
                  /\ SizeOK(v, e)
TInit == t \in 1..Len(Trace) /\ l = 1 /\ S = [o \in 1..3 |-> <<>>]
TNext == /\ l >= 1 /\ l <= Len(Ev) /\ t' = t
         /\ LET v == Post(E) IN
            IF ObsOK(E, v) THEN S' = [S EXCEPT ![E.o] = v] /\ l' = l + 1
            ELSE PrintT(<<"REJECT", t, l, E.op, "state", S, "expected", v>>) /\ l' = 0 /\ S' = S
TSpec == TInit /\ [][TNext]_<<t, l, S>>
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Trace))
=============================================================================
