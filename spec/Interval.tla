------------------------------ MODULE Interval ------------------------------
(* Closed intervals of numbers (or angles), and 3-D boxes as their products.
   An interval is <<>> (empty) or <<a, b>> with a <= b; end points are integers,
   INF and -INF the infinities, NAN a missing value (the empty point set).     *)
EXTENDS Integers, Sequences
INF == 1000
NAN == 9999
Iv(a, b) == IF a = NAN \/ b = NAN \/ a > b THEN <<>> ELSE <<a, b>>
Pt(x)    == Iv(x, x)
Leq(i, j)  == IF i = <<>> THEN TRUE ELSE IF j = <<>> THEN FALSE ELSE j[1] <= i[1] /\ i[2] <= j[2]
Meets(i, j) == i # <<>> /\ j # <<>> /\ i[1] <= j[2] /\ j[1] <= i[2]
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Meet(i, j) == IF i = <<>> \/ j = <<>> THEN <<>> ELSE Iv(Mx(i[1], j[1]), Mn(i[2], j[2]))
Hull(i, j) == IF i = <<>> THEN j ELSE IF j = <<>> THEN i ELSE <<Mn(i[1], j[1]), Mx(i[2], j[2])>>
Plus(a, k) == IF a \in {INF, -INF} THEN a ELSE a + k
Dilate(i, k) == IF i = <<>> \/ k = NAN THEN i ELSE Iv(Plus(i[1], -k), Plus(i[2], k))
Whole == <<-INF, INF>>
HasSize(i) == i[1] # i[2] \/ i[1] \notin {INF, -INF}     \* a point at infinity has none
Size(i)    == IF -INF = i[1] \/ INF = i[2] THEN INF ELSE i[2] - i[1]
Center2(i) == i[1] + i[2]

(* products of three; all empty or none *)
B3(i) == IF \E n \in 1..3 : i[n] = <<>> THEN <<>> ELSE i
BLe(i, j)  == IF i = <<>> THEN TRUE ELSE IF j = <<>> THEN FALSE ELSE \A n \in 1..3 : Leq(i[n], j[n])
BMeets(i, j) == i # <<>> /\ j # <<>> /\ \A n \in 1..3 : Meets(i[n], j[n])
BMeet(i, j) == IF i = <<>> \/ j = <<>> THEN <<>> ELSE B3([n \in 1..3 |-> Meet(i[n], j[n])])
BHull(i, j) == IF i = <<>> THEN j ELSE IF j = <<>> THEN i ELSE [n \in 1..3 |-> Hull(i[n], j[n])]
BDilate(i, k) == IF i = <<>> THEN i ELSE B3([n \in 1..3 |-> Dilate(i[n], k[n])])

(* what every observer of a pair of sets has to answer *)
Answer(le, ge, meets, eq) ==
    [c |-> ge, i |-> meets, d |-> ~meets, w |-> le, rc |-> ge, rd |-> ~meets, rw |-> le, eq |-> eq, ne |-> ~eq]
=============================================================================
