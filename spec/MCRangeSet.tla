----------------------------- MODULE MCRangeSet -----------------------------
(* Exhaustive exploration of RangeSet with two objects; with EMIT = TRUE every
   transition of object "x" is printed as one line for replay into the code.  *)
EXTENDS RangeSet, TLC, TLCExt, IOUtils

EMIT == "EMIT" \in DOMAIN IOEnv
RECURSIVE MaskFrom(_, _)
MaskFrom(s, i) == IF i >= K THEN 0 ELSE (IF i \in s THEN 1 ELSE 0) + 2 * MaskFrom(s, i + 1)
Mask(s) == MaskFrom(s, 0)
Out(op, args) == IF EMIT THEN PrintT("@" \o op \o ToString(args)) ELSE TRUE
B2N(b) == IF b THEN 1 ELSE 0
Bits(q) == <<B2N(q[1]), B2N(q[2]), B2N(q[3]), B2N(q[4])>>
x == "x"
y == "y"
StepX ==
    \/ \E f, l \in Atoms : \/ Insert(x, f, l) /\ Out("ins", <<Mask(S[x]), f, l, Mask(S'[x])>>)
                           \/ Erase(x, f, l) /\ Out("era", <<Mask(S[x]), f, l, Mask(S'[x])>>)
                           \/ Query /\ Out("qrg", <<Mask(S[x]), f, l>> \o Bits(Answers(S[x], RangeAtoms(f, l))))
    \/ DoComplement(x) /\ Out("com", <<Mask(S[x]), Mask(S'[x])>>)
    \/ Fill(x) /\ Out("fil", <<Mask(S[x]), Mask(S'[x])>>)
    \/ Clear(x) /\ Out("clr", <<Mask(S[x]), Mask(S'[x])>>)
    \/ \E op \in SetOps : \/ OpAssign(x, op, x) /\ Out("sel", <<op, Mask(S[x]), Mask(S'[x])>>)
                          \/ Binary(x, op, x, x) /\ UNCHANGED <<>>
    \/ Query /\ Out("qsl", <<Mask(S[x])>> \o Bits(Answers(S[x], S[x])))
    \/ Query /\ Out("obs", <<Mask(S[x]), Ranges(S[x]), Ranges(Complement(S[x]))>>)
StepXY ==
    \/ \E op \in SetOps : Binary(x, op, x, y) /\ Out("bin", <<op, Mask(S[x]), Mask(S[y]), Mask(S'[x])>>)
    \/ Query /\ Out("qst", <<Mask(S[x]), Mask(S[y])>> \o Bits(Answers(S[x], S[y])))
    \/ Swap(x, y) /\ Out("swp", <<Mask(S[x]), Mask(S[y])>>)
    \/ Assign(x, y)
MCNext == (S[y] = {} /\ StepX) \/ StepXY
\* y ranges over every set from the start; x is reached by histories
MCInit == \E t \in SUBSET Atoms : S = [o \in Obj |-> IF o = y THEN t ELSE {}]
\* x with y # {} must still reach every value: let x be rebuilt freely there
Rebuild == S[y] # {} /\ \E f, l \in Atoms : Insert(x, f, l) \/ Erase(x, f, l)
MCSpec == MCInit /\ [][MCNext \/ Rebuild]_S
=============================================================================
