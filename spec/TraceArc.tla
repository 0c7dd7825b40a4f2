------------------------------ MODULE TraceArc ------------------------------
(* Histories of real NormalizedAngleInterval and Box objects.  Each line is a
   history over three objects, kind "arc" or "box".  A box is <<>> or
   <<lon arc, <<lat a, lat b>>>> with latitudes in -Q..Q, Q = C/4 the pole.
   Arcs may be ambiguous (several smallest results), so the recorded result
   chooses among the allowed ones; everything else is determined.             *)
EXTENDS Arc, TLC, Json, IOUtils
I == INSTANCE Interval
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, S
Q == C \div 4
Kind == Trace[t].kind
Ev == Trace[t].ev
E  == Ev[l]
BoxK == Kind = "box"
Lats == <<-Q, Q>>
MkBox(lon, lat) == LET c == I!Meet(lat, Lats) IN IF lon = <<>> \/ c = <<>> THEN <<>> ELSE <<lon, c>>
FullBox == <<Full, Lats>>
Lon(b) == IF b = <<>> THEN <<>> ELSE b[1]
Lat(b) == IF b = <<>> THEN <<>> ELSE b[2]
Valid(v) == IF BoxK THEN v = <<>> \/ (Len(v) = 2 /\ IsArc(v[1]) /\ v[1] # <<>> /\ v[2] # <<>> /\ I!Leq(v[2], Lats) /\ v[2][1] <= v[2][2])
            ELSE IsArc(v)

\* a point: position, or <<lon, lat>>; negative longitude means missing
PtBox(p) == IF p[1] < 0 THEN <<>> ELSE <<PtArc(p[1]), <<p[2], p[2]>>>>
PtX(p) == IF BoxK THEN PtBox(p) ELSE PtArc(p)
Le(x, y)   == IF BoxK THEN SubA(Lon(x), Lon(y)) /\ I!Leq(Lat(x), Lat(y)) ELSE SubA(x, y)
Meets(x, y) == IF BoxK THEN MeetsA(Lon(x), Lon(y)) /\ I!Meets(Lat(x), Lat(y)) ELSE MeetsA(x, y)
\* an empty latitude intersection empties the box
ClipX(r, x, y) == IF ~BoxK THEN ClipOK(r, x, y)
                  ELSE LET m == I!Meet(Lat(x), Lat(y)) IN
                       IF m = <<>> \/ ~MeetsA(Lon(x), Lon(y)) THEN r = <<>>
                       ELSE r # <<>> /\ r[2] = m /\ ClipOK(r[1], Lon(x), Lon(y))
JoinX(r, x, y) == IF ~BoxK THEN JoinOK(r, x, y)
                  ELSE Lat(r) = I!Hull(Lat(x), Lat(y)) /\ JoinOK(Lon(r), Lon(x), Lon(y))
\* raw constructor of an arc from two unnormalized positions
Ctor(a, b) == IF a < 0 \/ a > C \/ b < 0 \/ b > C
              THEN IF b - a >= C THEN Full ELSE <<a % C, b % C>>
              ELSE <<a % C, b % C>>
CtorThrows(a, b) == (a < 0 \/ a > C \/ b < 0 \/ b > C) /\ a > b
LatDil(y, h) == I!Iv(IF y[1] > -Q THEN y[1] - h ELSE y[1], IF y[2] < Q THEN y[2] + h ELSE y[2])
DilBox(b, w, h) == IF b = <<>> \/ b = FullBox THEN b ELSE MkBox(DilateA(b[1], w), LatDil(b[2], h))
DilBox2(e) == MkBox(DilateA(PtArc(e.x[1]), e.k[1]), I!Iv(e.x[2] - e.k[2], e.x[2] + e.k[2]))
MaxAbs(y) == I!Mx(IF y[1] < 0 THEN -y[1] ELSE y[1], IF y[2] < 0 THEN -y[2] ELSE y[2])

\* is r an allowed result of the call?
Allowed(e, r) ==
    LET x == S[e.o] IN
    CASE e.op = "set"  -> r = (IF BoxK THEN MkBox(e.lon, IF e.lat = <<>> THEN <<>> ELSE I!Iv(e.lat[1], e.lat[2])) ELSE e.lon)
      [] e.op = "ctor" -> r = IF e.thr THEN x ELSE Ctor(e.a, e.b)
      [] e.op = "aro"  -> r = DilBox2(e)
      [] e.op = "clip" -> ClipX(r, x, S[e.p])
      [] e.op = "exp"  -> JoinX(r, x, S[e.p])
      [] e.op = "clipp" -> ClipX(r, x, PtX(e.x))
      [] e.op = "expp" -> JoinX(r, x, PtX(e.x))
      [] e.op = "dil"  -> r = DilateA(x, e.k)
      [] e.op = "dil2" -> r = DilBox(x, e.k[1], e.k[2])
      [] e.op = "dilr" -> LET y == IF x = <<>> \/ x = FullBox \/ e.k <= 0 THEN x ELSE MkBox(x[1], LatDil(x[2], e.k)) IN
                          \* r is the result with the longitude arc of x; grow the change of each end (C when full)
                          /\ r = y
                          /\ IF x = <<>> \/ x = FullBox \/ e.k <= 0 THEN e.grow = 0
                             ELSE IF x[1] = Full \/ MaxAbs(x[2]) + e.k > Q THEN e.grow = C
                             ELSE e.grow = C \/ e.grow >= e.k
      [] e.op = "asg"  -> r = S[e.p]

\* twice the sine of a latitude, for those where it is a whole number
Sin2(k) == CASE 12 * k = 3 * C -> 2 [] 12 * k = C -> 1 [] k = 0 -> 0 [] 12 * k = -C -> -1 [] 12 * k = -3 * C -> -2 [] OTHER -> 9
ObsOK(e) ==
    CASE e.op = "q"  -> LET x == S[e.o] y == S[e.p] IN e.ans = I!Answer(Le(x, y), Le(y, x), Meets(x, y), x = y)
      [] e.op = "qp" -> LET x == S[e.o] y == PtX(e.x) IN e.ans = I!Answer(Le(x, y), Le(y, x), Meets(x, y), x = y)
      [] OTHER ->
         LET v == e.post IN
         /\ Valid(v) /\ Allowed(e, v) /\ (e.op # "ctor" \/ e.thr = CtorThrows(e.a, e.b))
         /\ Valid(e.cp) /\ Allowed(e, e.cp) /\ e.kept
         /\ e.empty = (v = <<>>)
         /\ (e.strict => e.full = (v = IF BoxK THEN FullBox ELSE Full))
         /\ (v # <<>> /\ e.strict =>
                IF BoxK THEN /\ e.size = <<LenA(v[1]), v[2][2] - v[2][1]>>
                             /\ (v[1] # Full => e.cen[1] = Center2A(v[1])) /\ e.cen[2] = v[2][1] + v[2][2]
                             /\ (Sin2(v[2][1]) < 9 /\ Sin2(v[2][2]) < 9 => e.area = LenA(v[1]) * (Sin2(v[2][2]) - Sin2(v[2][1])))
                ELSE /\ e.size = LenA(v) /\ e.wraps = WrapsA(v)
                     /\ (v # Full => e.cen = Center2A(v)))
         /\ (v = <<>> /\ BoxK => e.area = 0)
TInit == t \in 1..Len(Trace) /\ l = 1 /\ S = [o \in 1..3 |-> <<>>]
TNext == /\ l >= 1 /\ l <= Len(Ev) /\ t' = t
         /\ IF ObsOK(E) THEN S' = (IF E.op \in {"q", "qp"} THEN S ELSE [S EXCEPT ![E.o] = E.post]) /\ l' = l + 1
            ELSE PrintT(<<"REJECT", t, l, E.op, "state", S, "event", E>>) /\ l' = 0 /\ S' = S
TSpec == TInit /\ [][TNext]_<<t, l, S>>
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Trace))
=============================================================================
