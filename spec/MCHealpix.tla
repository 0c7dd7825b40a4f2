------------------------------ MODULE MCHealpix ------------------------------
(* Every cell between the lines of belt and caps up to level Max: the numbering
   is onto, cells share a number only where a pixel is cut by the border of the
   belt, and it nests.  A refinement step goes to one of the four subcells.    *)
EXTENDS Healpix, FiniteSets, TLC
CONSTANT Max
VARIABLES l, c
\* belt: between |3z/4| <= 1/2 the lines satisfy |m - p| <= n; caps: p + m < n
Cells(k) == LET n == P2i(k) IN
    {<<0, p, m>> : p \in 0..(5 * n), m \in 0..(5 * n)} \cup
    {<<h, q, p, m>> : h \in {1, 2}, q \in 0..3, p \in 0..(n - 1), m \in 0..(n - 1)}
InGrid(x, k) == LET n == P2i(k) IN
    IF x[1] = 0 THEN x[3] - x[2] <= n /\ x[2] - x[3] <= n /\ x[2] + x[3] >= n - 1 /\ x[2] + x[3] <= 9 * n - 1
    ELSE x[3] + x[4] < n
Pix(x, k) == IF x[1] = 0 THEN Belt(x[2], x[3], k) ELSE Cap(x[2], x[3], x[4], x[1] = 1, k)
Subs(x) == IF x[1] = 0 THEN {<<0, 2 * x[2] + a, 2 * x[3] + b>> : a \in {0, 1}, b \in {0, 1}}
           ELSE {<<x[1], x[2], 2 * x[3] + a, 2 * x[4] + b>> : a \in {0, 1}, b \in {0, 1}}
Init == l = 0 /\ c \in {x \in Cells(0) : InGrid(x, 0)}
Next == l < Max /\ l' = l + 1 /\ \E x \in Subs(c) : InGrid(x, l + 1) /\ c' = x
Spec == Init /\ [][Next]_<<l, c>>
Nested == [][Parent(Pix(c', l')) = Pix(c, l)]_<<l, c>>
Valid == LET f == Pix(c, l) n == P2i(l) IN f[1] \in 0..11 /\ f[2] \in 0..(n - 1) /\ f[3] \in 0..(n - 1) /\ Number(f, l) \in 0..(12 * n * n - 1)
NumberNests == l = 0 \/ Number(Pix(c, l), l) \div 4 = Number(Parent(Pix(c, l)), l - 1)
\* both sides of the border between belt and cap agree on the pixel
Border == LET n == P2i(l) IN
    c[1] # 0 /\ c[3] + c[4] = n - 1 => LET q == c[2] IN
        IF c[1] = 1 THEN Pix(c, l) = Belt(q * n + c[3], q * n + n + (n - 1 - c[4]), l)
        ELSE Pix(c, l) = Belt(q * n + n + c[3], q * n + (n - 1 - c[4]), l)
Grid(k) == {x \in Cells(k) : InGrid(x, k)}
ASSUME \A k \in 0..(Max - 1) : {Number(Pix(x, k), k) : x \in Grid(k)} = 0..(12 * P2i(k) * P2i(k) - 1)
Inv == Valid /\ NumberNests /\ Border
=============================================================================
