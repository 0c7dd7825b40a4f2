---------------------------- MODULE TraceHealpix ----------------------------
(* Recorded answers of the HEALPix pixelization. A point has its vector v (in
   units of 2^-75), its longitude in quarter turns t and s = sqrt(3 (1 - |z|))
   (in units of 2^-45), and cs, the cosine and sine of that longitude (2^-60). *)
EXTENDS Healpix, Vec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLE i
If(b, x) == IF b THEN {} ELSE {x}
P2(n) == BShl(B(1), n)
Drop(x, n) == Mk(x[1], Strip(SubSeq(Mag(x), n + 1, Len(x) - 1)))  \* towards zero, by 15 n bits
Limb(x, k) == At(Mag(x), k)
Floor(x, n) == IF BSgn(x) <= 0 THEN 0 ELSE Limb(x, n + 1) + 32768 * Limb(x, n + 2)  \* of x / 2^(15 n)
SpreadB(x) == BAdd(B(Spread(x % 8192)), BAdd(BShl(B(Spread((x \div 8192) % 8192)), 26), BShl(B(Spread(x \div 67108864)), 52)))
NumB(c, l) == BAdd(BShl(B(c[1]), 2 * l), BAdd(SpreadB(c[2]), BShl(SpreadB(c[3]), 1)))
\* the longitude and s are those of the vector
Honest(p) == LET v == p.v q == BAdd(BSq(v[1]), BSq(v[2]))
                 d == BSub(BMul(BSq(p.s), BAdd(P2(75), BAbs(v[3]))), BShl(BMul(B(3), q), 15)) IN
    /\ BLeq(BAbs(d), BShl(BAdd(p.s, B(4)), 78))
    /\ BLeq(BAbs(BSub(BMul(p.cs[1], v[2]), BMul(p.cs[2], v[1]))), P2(135 - 48))
    /\ BLeq(P2(140 - 60), q) => BSgn(BAdd(BMul(p.cs[1], v[1]), BMul(p.cs[2], v[2]))) = 1
    /\ BSgn(p.t) >= 0 /\ BLeq(p.t, P2(47))
\* the pixels within E (in units of 2^-45) of a point
Near3(E) == {BNeg(B(E)), B(0), B(E)}
BeltPix(p, l, E) ==
    LET T4 == BAdd(BShl(BAdd(p.t, P2(47)), 2), P2(46))  \* 4 (t + 4 + 1/2)
        z3 == Drop(BMul(B(3), p.v[3]), 2)
        F(x) == Floor(BShl(x, l + 13), 4)
    IN {Belt(F(BAdd(BSub(T4, z3), d)), F(BAdd(BAdd(T4, z3), f)), l) : d \in Near3(4 * E), f \in Near3(4 * E)}
CapPix(p, l, E) ==
    LET one == P2(45) q == Floor(p.t, 3) u == BSub(p.t, BShl(B(q), 45)) w == BSub(one, u)
        e2 == BShl(B(E), 45)
        F(x) == Floor(BShl(x, l), 6)
        Qs == {<<q % 4, u, w>>}
              \cup (IF BLeq(BMul(u, p.s), e2) THEN {<<(q + 3) % 4, one, B(0)>>} ELSE {})
              \cup (IF BLeq(BMul(w, p.s), e2) THEN {<<(q + 1) % 4, B(0), one>>} ELSE {})
              \cup (IF BLeq(p.s, B(2 * E)) THEN {<<k, B(0), B(0)>> : k \in 0..3} ELSE {})
    IN {Cap(Q[1], F(BAdd(BMul(Q[2], p.s), BShl(d, 45))), F(BAdd(BMul(Q[3], p.s), BShl(f, 45))), BSgn(p.v[3]) > 0, l) :
            Q \in Qs, d \in Near3(E), f \in Near3(E)}
Adm(p, l, E) ==
    LET z3 == Drop(BMul(B(3), BAbs(p.v[3])), 2) two == P2(46) IN
    (IF BLeq(z3, BAdd(two, B(8 * E))) THEN BeltPix(p, l, E) ELSE {})
    \cup (IF BLeq(BSub(two, B(8 * E)), z3) THEN CapPix(p, l, E) ELSE {})
Has(i0, S, l) == \E c \in S : BCmp(NumB(c, l), i0) = 0
EPS == 8
LOOSE == 512
Index(e) ==
    {<<"witness", k>> : k \in {k \in 1..Len(e.p) : ~Honest(e.p[k])}}
    \cup {<<"index", k>> : k \in {k \in 1..Len(e.p) : ~Has(e.p[k].ix, Adm(e.p[k], e.l, EPS), e.l)}}
    \cup {<<"prefix", k>> : k \in {k \in 1..Len(e.p) : ~(BLeq(BShl(e.p[k].ix, 2), e.p[k].ix1) /\ BLt(e.p[k].ix1, BAdd(BShl(e.p[k].ix, 2), B(4))))}}
\* the outline of a pixel: every vertex touches it, its middle is in it and in no other, four or more vertices touch three others
Pixel(e) ==
    {<<"witness", k>> : k \in {k \in 1..Len(e.p) : ~Honest(e.p[k])}} \cup If(Honest(e.mid), <<"witness", 0>>)
    \cup {<<"vertex", k>> : k \in {k \in 1..Len(e.p) : ~Has(e.i, Adm(e.p[k], e.l, LOOSE), e.l)}}
    \cup If({NumB(c, e.l) : c \in Adm(e.mid, e.l, LOOSE)} = {e.i}, <<"middle">>)
    \cup If(Len(SelectSeq(e.p, LAMBDA p : \E a, b, c \in Adm(p, e.l, LOOSE) : a # b /\ b # c /\ a # c)) >= 4, <<"corners">>)
RECURSIVE Dec(_, _, _)
Dec(d, k, acc) == IF k > Len(d) THEN acc ELSE Dec(d, k + 1, BAdd(BMul(acc, B(10)), B(d[k])))
Decimal(d, n) == Len(d) >= 1 /\ (Len(d) = 1 \/ d[1] # 0) /\ (\A k \in 1..Len(d) : d[k] \in 0..9) /\ BCmp(Dec(d, 1, B(0)), n) = 0
Ident(e) ==
    If(e.l < 0 <=> e.threw, <<"refused">>)
    \cup (IF e.threw \/ e.l < 0 THEN {} ELSE
        If(e.lev = e.l /\ e.lev2 = e.l, <<"level">>) \cup If(BCmp(e.nside, P2(e.l)) = 0, <<"nside">>)
        \cup If(Len(e.uni) = 1 /\ BSgn(e.uni[1][1]) = 0 /\ BCmp(e.uni[1][2], BMul(B(12), P2(2 * e.l))) = 0, <<"universe">>)
        \cup If(e.eq = (e.l = e.m) /\ e.ne = (e.l # e.m), <<"equality">>)
        \cup If(\A k \in 1..Len(e.copies) : e.copies[k] = e.l, <<"copy">>)
        \cup If(e.copyeq, <<"copy equal">>)
        \cup If(Decimal(e.name, e.i), <<"name">>)
        \cup If(Decimal(e.repr, B(e.l)), <<"repr">>))
Bad(e) == CASE e.op = "index" -> Index(e) [] e.op = "pixel" -> Pixel(e) [] e.op = "ident" -> Ident(e)
Init == i \in 1..BLOCKS
Next == /\ i <= N /\ i' = i + BLOCKS
        /\ LET b == Bad(Trace[i]) IN b = {} \/ PrintT(<<"REJECT", i, Trace[i].op, Trace[i].l, b>>)
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
