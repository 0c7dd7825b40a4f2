---------------------------- MODULE TraceRangeSet ----------------------------
(* Accepts a recorded history of real RangeSet objects iff it is a behaviour of
   RangeSet and every observer reported what the abstract value demands.
   One input line per history: [w |-> atom sizes, ev |-> events].             *)
EXTENDS RangeSet, BigInt, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Trace[t].ev
E  == Ev[l]

RECURSIVE SumW(_, _)
SumW(s, i) == IF i >= K THEN B(0) ELSE IF i \in s THEN BAdd(Trace[t].w[i + 1], SumW(s, i + 1)) ELSE SumW(s, i + 1)
Two64 == BShl(B(1), 64)
\* cardinality is taken modulo 2^64: the full set reports 0
Card(s) == IF s = Atoms THEN B(0) ELSE SumW(s, 0)

Act(e) ==
    CASE e.op = "ins"  -> Insert(e.o, e.f, e.l)
      [] e.op = "era"  -> Erase(e.o, e.f, e.l)
      [] e.op = "com"  -> DoComplement(e.o)
      [] e.op = "fil"  -> Fill(e.o)
      [] e.op = "clr"  -> Clear(e.o)
      [] e.op = "asg"  -> Assign(e.o, e.a)
      [] e.op = "cpl"  -> Complemented(e.o, e.a)
      [] e.op = "bin"  -> Binary(e.o, e.b, e.x, e.y)
      [] e.op = "opa"  -> OpAssign(e.o, e.b, e.y)
      [] e.op = "swp"  -> Swap(e.o, e.a)
      [] e.op = "ctr"  -> Construct(e.o, e.rs)
      [] e.op = "itr"  -> Query
      [] e.op = "qrg"  -> Query
      [] e.op = "qst"  -> Query

\* a walk of two iterators over the listed ranges: positions, what they point at, and how they compare
RECURSIVE WalkOK(_, _, _, _)
WalkOK(rs, mv, k, pos) ==
    IF k > Len(mv) THEN TRUE
    ELSE LET m == mv[k] IN
      IF m.w = -1 THEN WalkOK(rs, mv, k + 1, <<pos[2], pos[1]>>)
      ELSE LET n == Len(rs)
               old == pos[m.w + 1]
               new == CASE m.op \in {0, 2} -> old + 1 [] m.op \in {1, 3} -> old - 1 [] OTHER -> old + m.d
               p2 == [pos EXCEPT ![m.w + 1] = new]
               Deref(p) == IF p >= 0 /\ p < n THEN rs[p + 1] ELSE <<>>
               x == p2[1] y == p2[2] IN
           /\ m.p = new /\ m.end = n - new /\ m.cur = Deref(new)
           /\ (m.op \in {2, 3} => m.old = Deref(old))
           /\ (m.op = 9 /\ "no" \notin DOMAIN m => m.old = Deref(old + m.ix))
           /\ m.cmp = <<x = y, x # y, x < y, x > y, x <= y, x >= y>>
           /\ WalkOK(rs, mv, k + 1, p2)
\* s: abstract value after the step, e.obs: what the object reported
ObsOK(e, SS) ==
    CASE e.op = "itr" -> LET rs == Ranges(IF e.comp THEN Complement(SS[e.o]) ELSE SS[e.o]) IN WalkOK(rs, e.walk, 1, <<0, Len(rs)>>)
      [] e.op = "qrg" -> e.ans = Answers(SS[e.o], RangeAtoms(e.f, e.l))
      [] e.op = "qst" -> e.ans = Answers(SS[e.o], SS[e.a])
      [] OTHER ->
         LET s == SS[e.o] q == e.obs IN
         /\ q.r = Ranges(s)
         /\ q.c = Ranges(Complement(s))
         /\ q.n = Len(Ranges(s))
         /\ q.e = (s = {})
         /\ q.f = (s = Atoms)
         /\ q.v
         /\ q.card = Card(s)
         /\ \A p \in Obj : q.eq[p] = (SS[p] = s) /\ q.ne[p] # q.eq[p]

TInit == Init /\ t \in 1..Len(Trace) /\ l = 1
TNext == /\ l >= 1 /\ l <= Len(Ev)
         /\ Act(E)
         /\ t' = t
         /\ IF ObsOK(E, S') THEN l' = l + 1
            ELSE PrintT(<<"REJECT", t, l, E.op, "state", S, "after", S'>>) /\ l' = 0
TSpec == TInit /\ [][TNext]_<<S, t, l>>
\* every history was consumed to its end: one state per event plus the initial one
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Trace))
Inv == TypeOK
=============================================================================
