-------------------------- MODULE TraceRangeSetNum --------------------------
(* Validates recorded simplify/scale calls on full 64 bit range lists.  Each
   line is one call: op, k, pre and post range lists (BigInt end points, end 0
   meaning 2^64).                                                             *)
EXTENDS BigInt, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLES b, i          \* block and event index

Two64 == BShl(B(1), 64)
\* multiples of 2^n without division: clear the low n bits of the magnitude
RECURSIVE LowMask(_, _)
LowMask(m, n) == IF m = <<>> \/ n <= 0 THEN m
                 ELSE IF n >= 15 THEN <<0>> \o LowMask(Tail(m), n - 15)
                 ELSE <<(m[1] \div Pow2(n)) * Pow2(n)>> \o Tail(m)
RoundDown(v, n) == IF v[1] = 0 THEN v ELSE Mk(1, Strip(LowMask(Mag(v), n)))
RoundUp(v, n)   == RoundDown(BAdd(v, BSub(BShl(B(1), n), B(1))), n)
\* range lists with a real end point 2^64
Ends(rs) == [j \in DOMAIN rs |-> <<rs[j][1], IF rs[j][2] = <<0>> THEN Two64 ELSE rs[j][2]>>]
Back(rs) == [j \in DOMAIN rs |-> <<rs[j][1], IF rs[j][2] = Two64 THEN <<0>> ELSE rs[j][2]>>]
\* union of ranges given in order of their beginnings
RECURSIVE Merge(_, _)
Merge(rs, acc) ==
    IF rs = <<>> THEN acc
    ELSE LET r == Head(rs) IN
         IF acc # <<>> /\ BLeq(r[1], acc[Len(acc)][2])
         THEN Merge(Tail(rs), [acc EXCEPT ![Len(acc)] = <<@[1], BMax(@[2], r[2])>>])
         ELSE Merge(Tail(rs), Append(acc, r))
Small(k) == Len(k) <= 2          \* k < 2^15
KInt(k) == IF k[1] = 0 THEN 0 ELSE k[2]
SimplifySpec(rs, k) ==
    IF rs = <<>> THEN <<>>
    ELSE IF ~Small(k) \/ KInt(k) >= 64 THEN <<<<<<0>>, Two64>>>>
    ELSE Merge([j \in DOMAIN rs |-> <<RoundDown(rs[j][1], KInt(k)), BMin(Two64, RoundUp(rs[j][2], KInt(k)))>>], <<>>)
\* ends past 2^64 are cut off, except that 2^64 itself (no representable end) stays 2^64
Cut(v) == BMin(v, Two64)
ScaleSpec(rs, k) ==
    IF k[1] = 0 THEN <<>>
    ELSE Merge(SelectSeq([j \in DOMAIN rs |-> <<Cut(BMul(rs[j][1], k)), Cut(BMul(rs[j][2], k))>>],
                         LAMBDA r : BLt(r[1], r[2])), <<>>)
Compl(rs) ==   \* complement of a canonical list
    LET pts == <<(<<0>>)>> \o [j \in 1..(2 * Len(rs)) |-> rs[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2]] \o <<Two64>>
    IN SelectSeq([j \in 1..(Len(rs) + 1) |-> <<pts[2 * j - 1], pts[2 * j]>>], LAMBDA r : BLt(r[1], r[2]))

Ok(e) == LET exp == IF e.op = "simp" THEN SimplifySpec(Ends(e.pre), e.k) ELSE ScaleSpec(Ends(e.pre), e.k)
         IN /\ Ends(e.post) = exp /\ Ends(e.inplace) = exp
            /\ e.valid /\ e.same /\ e.kept /\ e.size = Len(exp)
            /\ Ends(e.compl) = Compl(exp)
Init == b \in 1..BLOCKS /\ i = b
Next == /\ i <= N /\ b' = b /\ i' = i + BLOCKS
        /\ (Ok(Trace[i]) \/ PrintT(<<"REJECT", i, Trace[i].op>>))
Spec == Init /\ [][Next]_<<b, i>>
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
