------------------------------ MODULE Chunker ------------------------------
(* The numbering of chunks and sub-chunks.  A configuration has n stripes of k
   sub-stripes each; stripe s has nc[s] chunks and sub-stripe t has nsc[t]
   sub-chunks in each chunk of its stripe (s and t count from 0).            *)
EXTENDS Integers, FiniteSets, Sequences
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
StripeOf(t, k) == t \div k
ChunkId(n, s, c) == (2 * n * s) + c
ChunkIds(n, nc) == {ChunkId(n, p[1], p[2]) : p \in UNION {{s} \X (0..nc[s] - 1) : s \in 0..n - 1}}
\* the largest number of sub-chunks of a sub-stripe in one chunk
Base(n, k, nsc) == MaxOf({nsc[t] : t \in 0..n * k - 1})
\* sub-chunk j of sub-stripe t, counted around the whole sphere
ChunkOf(j, cnt) == j \div cnt
SubId(m, k, t, j, cnt) == (m * (t % k)) + (j % cnt)
SubIds(m, k, s, nsc) == {(m * p[1]) + p[2] : p \in UNION {{y} \X (0..nsc[s * k + y] - 1) : y \in 0..k - 1}}
\* what an id means
Stripe(n, id) == id \div (2 * n)
Position(n, id) == id % (2 * n)
Valid(n, nc, id) == id >= 0 /\ Stripe(n, id) < n /\ Position(n, id) < nc[Stripe(n, id)]
(* A circle of L positions is cut into w equal cells of L \div w positions; an
   arc a..b (going up, past 0 when a > b) meets these cells.                 *)
ArcPositions(a, b, L) == IF a <= b THEN a..b ELSE (a..L - 1) \cup (0..b)
CellsMet(a, b, w, L) == {p \div (L \div w) : p \in ArcPositions(a, b, L)}
(* the walk from the cell of a to the cell of b                              *)
Walk(a, b, w, L) == LET ca == a \div (L \div w) cb == b \div (L \div w) IN
    IF ca = cb /\ a > b THEN 0..w - 1
    ELSE IF ca <= cb THEN ca..cb ELSE (0..cb) \cup (ca..w - 1)
=============================================================================
