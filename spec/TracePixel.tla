----------------------------- MODULE TracePixel -----------------------------
(* Recorded answers of the pixelizations.                                     *)
EXTENDS Pixels, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLE i
RECURSIVE Fine(_)
Fine(R) == CASE R.k = "ell" -> 40
             [] R.k \in {"union", "inter"} -> MinI(Fine(R.r[1]), Fine(R.r[2]))
             [] OTHER -> 46
T == 46
If(b, x) == IF b THEN {} ELSE {x}
\* trixels have no margin: a point may lie outside its trixel by a few roundings of a coordinate
Grazes(e, Q, k) == \E m \in 1..Len(Q) : BCmp(e.ix[k], e.pix[m].i) = 0 /\ Side(Q[m], e.p[k], 50) # -1
\* points p with indexes ix, and some pixels: a point strictly inside a pixel has its
\* index, and a point with the index of a pixel is in it
Index(e) == LET Q == [m \in 1..Len(e.pix) |-> Poly(e.pix[m].v)] IN
    {<<"universe", k>> : k \in {k \in 1..Len(e.p) : ~InUniverse(e.k, e.l, e.ix[k])}}
    \cup {<<"covers", k>> : k \in {k \in 1..Len(e.p) : ~e.ok[k] /\ ~(e.k = "htm" /\ Grazes(e, Q, k))}}
    \cup {<<"pixel", k>> : k \in {k \in 1..Len(e.p) : \E m \in 1..Len(Q) :
            LET s == Side(Q[m], e.p[k], T) same == BCmp(e.ix[k], e.pix[m].i) = 0
            IN (s = 1 /\ ~same) \/ (s = -1 /\ same)}}
\* indexes at two consecutive levels; a parent and its children
Nest(e) == LET P == Poly(e.par) C == [m \in 1..4 |-> Poly(e.ch[m])] IN
    {<<"prefix", k>> : k \in {k \in 1..Len(e.p) : ~(BLeq(BShl(e.ix0[k], 2), e.ix1[k]) /\ BLt(e.ix1[k], BAdd(BShl(e.ix0[k], 2), B(4))))}}
    \cup {<<"inside", m>> : m \in {m \in 1..4 : \E j \in 1..Len(e.ch[m]) : Side(P, e.ch[m][j], T) = -1}}
    \cup {<<"tile", k>> : k \in {k \in 1..Len(e.p) :
            LET s == Side(P, e.p[k], T) c == [m \in 1..4 |-> Side(C[m], e.p[k], T)]
            IN (s = 1 /\ \A m \in 1..4 : c[m] = -1) \/ (\E m \in 1..4 : c[m] = 1 /\ (s = -1 \/ \E o \in 1..4 : o # m /\ c[o] = 1))}}
Name(e) == LET valid == IF e.k = "q3c" THEN InUniverse(e.k, e.l, e.i) ELSE LevelOf(e.k, e.i) \in 0..MaxLevel(e.k)
               l == IF e.k = "q3c" THEN e.l ELSE LevelOf(e.k, e.i)
           IN If(e.named = valid, <<"named">>)
              \cup (IF valid /\ e.named THEN If(NameOk(e.k, l, e.i, e.name, e.v), <<"name">>) ELSE {})
              \cup (IF e.k = "q3c" \/ l > MaxLevel(e.k) THEN {} ELSE If(e.lev = l, <<"level">>))
Refuse(e) == If(e.threw = (IF e.k = "htm" THEN LevelOf(e.k, e.i) \notin 0..MaxLevel(e.k)
                           ELSE IF e.own THEN LevelOf(e.k, e.i) \notin 0..MaxLevel(e.k) ELSE ~InUniverse(e.k, e.l, e.i)), <<"refuse">>)
Ctor(e) == If(e.threw = (e.l \notin 0..MaxLevel(e.k)), <<"ctor">>)
\* the neighbourhood: exactly the candidates that share a corner (the candidates
\* include every pixel met around the corners), sorted and without duplicates
CT == 44
Nbr(e) == LET nb == e.nb IN
    {<<"cand", BCmp(e.cand[m].i, e.i)>> : m \in {m \in 1..Len(e.cand) :
        ShareCorner(e.v, e.cand[m].v, CT) # (\E j \in 1..Len(nb) : BCmp(nb[j], e.cand[m].i) = 0)}}
    \cup If(\A j \in 1..(Len(nb) - 1) : BLt(nb[j], nb[j + 1]), <<"sorted">>)
    \cup If(\A j \in 1..Len(nb) : \E m \in 1..Len(e.cand) : BCmp(nb[j], e.cand[m].i) = 0, <<"listed">>)
    \cup If(\E j \in 1..Len(nb) : BCmp(nb[j], e.i) = 0, <<"self">>)
    \cup If(e.sym, <<"symmetric">>)
Wf(e, rs) == WellFormed(rs, 1) /\ SubRanges(rs, <<<<LoB(e.k, e.l), HiB(e.k, e.l)>>>>)
Envelope(e) == LET R == Prep(e.r) t == Fine(e.r) IN
    {<<"miss", k>> : k \in {k \in 1..Len(e.p) : Side(R, e.p[k], t) = 1 /\ ~((e.full => InRanges(e.ix[k], e.f)) /\ InRanges(e.ix[k], e.c))}}
    \cup If(Wf(e, e.f) /\ Wf(e, e.c), <<"set">>)
    \cup If(e.full => SubRanges(e.f, e.c), <<"capadds">>)
    \cup If(e.cap = 0 \/ Len(e.c) <= e.cap, <<"cap">>)
    \cup {<<"apart", m>> : m \in {m \in 1..Len(e.pix) : e.full /\ InRanges(e.pix[m].i, e.f) /\ ClearlyApart(R, Poly(e.pix[m].v))}}
\* the edges of HEALPix pixels are not geodesics: a pixel may leave a region that has all its corners
Bulges(e, R, k, t) == e.k = "hpx" /\ \A j \in 1..Len(e.cor[k]) : Side(R, e.cor[k][j], MinI(t, 44)) # -1
Interior(e) == LET R == Prep(e.r) t == Fine(e.r) IN
    {<<IF Bulges(e, R, k, t) THEN "bulge" ELSE "outside", k>> : k \in {k \in 1..Len(e.p) : Side(R, e.p[k], t) = -1 /\ ((e.full /\ InRanges(e.ix[k], e.f)) \/ InRanges(e.ix[k], e.c))}}
    \cup {<<"corner", m>> : m \in {m \in 1..Len(e.pix) : (InRanges(e.pix[m].i, e.c) \/ (e.full /\ InRanges(e.pix[m].i, e.f)))
                                    /\ \E j \in 1..Len(e.pix[m].v) : Side(R, e.pix[m].v[j], MinI(t, 44)) = -1}}
    \cup If(Wf(e, e.f) /\ Wf(e, e.c), <<"set">>)
    \cup If(e.full => SubRanges(e.c, e.f), <<"capremoves">>)
    \cup If(e.cap = 0 \/ Len(e.c) <= e.cap, <<"cap">>)
    \cup If(e.full => SubRanges(e.f, e.env), <<"envelope">>)
    \cup {<<"within", m>> : m \in {m \in 1..Len(e.pix) : e.full /\ ~InRanges(e.pix[m].i, e.f) /\ ClearlyWithin(Poly(e.pix[m].v), R)}}
Bad(e) == CASE e.op = "index" -> Index(e) [] e.op = "nest" -> Nest(e) [] e.op = "name" -> Name(e) [] e.op = "refuse" -> Refuse(e)
            [] e.op = "ctor" -> Ctor(e) [] e.op = "nbr" -> Nbr(e) [] e.op = "env" -> Envelope(e) [] e.op = "int" -> Interior(e)
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Bad(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
