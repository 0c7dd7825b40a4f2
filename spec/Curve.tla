------------------------------- MODULE Curve -------------------------------
(* Space-filling curves as automata over base 4 digits, most significant first.
   A Morton digit is 2*y + x for one bit of y and x.  The Hilbert automaton has
   one state per orientation of the basic U: which corner it starts from (a) and
   whether the first step is along x (d = 0) or along y (d = 1); it is derived
   from that geometry, not from any lookup table.                             *)
EXTENDS Integers, Sequences
RECURSIVE Pw(_, _)
Pw(b, n) == IF n = 0 THEN 1 ELSE b * Pw(b, n - 1)

\* quadrant corners <<x, y>> of the U in state <<a, d>>, in visiting order:
\* start at corner a, go along axis d, then along the other, then back along d
Start(a) == IF a = 0 THEN <<0, 0>> ELSE <<1, 1>>
Flip(q, axis) == IF axis = 0 THEN <<1 - q[1], q[2]>> ELSE <<q[1], 1 - q[2]>>
Visit(s, h) == LET q0 == Start(s[1]) q1 == Flip(q0, s[2]) q2 == Flip(q1, 1 - s[2]) q3 == Flip(q2, s[2])
               IN CASE h = 0 -> q0 [] h = 1 -> q1 [] h = 2 -> q2 [] h = 3 -> q3
\* the four smaller copies: the first is transposed, the middle two are the same,
\* the last is transposed about the other diagonal
Child(s, h) == CASE h = 0 -> <<s[1], 1 - s[2]>> [] h \in {1, 2} -> s [] h = 3 -> <<1 - s[1], 1 - s[2]>>
MortonOf(q) == 2 * q[2] + q[1]
DigitAt(s, z) == CHOOSE h \in 0..3 : MortonOf(Visit(s, h)) = z
\* the top level orientation depends on nothing: start at the origin along FirstAxis
FirstAxis == 1
RECURSIVE HilbertFrom(_, _), MortonFrom(_, _)
HilbertFrom(s, z) == IF z = <<>> THEN <<>>
                     ELSE LET h == DigitAt(s, Head(z)) IN <<h>> \o HilbertFrom(Child(s, h), Tail(z))
MortonFrom(s, h) == IF h = <<>> THEN <<>>
                    ELSE <<MortonOf(Visit(s, Head(h)))>> \o MortonFrom(Child(s, Head(h)), Tail(h))
ToHilbert(z) == HilbertFrom(<<0, FirstAxis>>, z)
ToMorton(h)  == MortonFrom(<<0, FirstAxis>>, h)
Xs(z) == [i \in DOMAIN z |-> z[i] % 2]
Ys(z) == [i \in DOMAIN z |-> z[i] \div 2]
Interleave(x, y) == [i \in DOMAIN x |-> 2 * y[i] + x[i]]
RECURSIVE Val(_, _)
Val(ds, b) == IF ds = <<>> THEN 0 ELSE Val(SubSeq(ds, 1, Len(ds) - 1), b) * b + ds[Len(ds)]
Digits(n, b, m) == [i \in 1..m |-> (n \div Pw(b, m - i)) % b]
=============================================================================
