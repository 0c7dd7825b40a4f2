----------------------------- MODULE TracePython -----------------------------
(* Accepts a history recorded through the Python bindings iff it is a
   behaviour of PyStore and every call yields the value the C++ library yields
   for the same argument values. One line per history: tok is the table of
   values (exact bit patterns), ev the events; values are indices into tok.
   After every event the values of all objects are compared.                 *)
EXTENDS PyStore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l
Ev == Trace[t].ev
E == Ev[l]
Val(k) == IF k = 1 THEN None ELSE k  \* the first table entry is "no object"
Act(e) == CASE e.op = "call" -> Call(e.src, e.args, e.dst, e.got, e.fail)
            [] e.op = "copy" -> Copy(e.src[1], e.dst)
\* library: the binding answers what C++ answers; copies: equal value, equal by ==, distinct object
Refines(e) == CASE e.op = "call" -> e.got = e.want
                [] e.op = "copy" -> ~e.fail /\ e.got = e.args[1] /\ e.eq = e.want /\ e.ne = e.eq /\ ~e.alias
Seen(e) == \A s \in Slots : Val(e.post[s]) = store'[s]
TInit == SInit /\ t \in 1..Len(Trace) /\ l = 1
Why(e) == <<Trace[t].tok[e.got], IF e.want > 0 THEN Trace[t].tok[e.want] ELSE "">>
TNext == /\ l >= 1 /\ l <= Len(Ev)
         /\ t' = t
         /\ IF E.op = "copy" /\ (E.fail \/ E.dst = 0) THEN PrintT(<<"REJECT", t, l, E.f, "copy failed", Why(E)>>) /\ l' = 0 /\ store' = store
            ELSE IF ~Passed(E.src, E.args) THEN PrintT(<<"REJECT", t, l, E.f, "arguments", Why(E)>>) /\ l' = 0 /\ store' = store
            ELSE /\ Act(E)
                 /\ IF Refines(E) /\ Seen(E) THEN l' = l + 1
                    ELSE PrintT(<<"REJECT", t, l, E.f, IF Refines(E) THEN "another object changed" ELSE "result", Why(E)>>) /\ l' = 0
TSpec == TInit /\ [][TNext]_<<store, t, l>>
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Len(Trace[i].ev) + 1 + Total(i - 1)
Accepted == TLCGet("stats").distinct = Total(Len(Trace))
=============================================================================
