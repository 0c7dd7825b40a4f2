----------------------------- MODULE MCChunker -----------------------------
(* Every assignment of counts for small configurations; the ids are unique,
   decompose, and are valid exactly when they exist.                         *)
EXTENDS Chunker
CONSTANTS MAXN, MAXK, MAXC
L == 60
VARIABLES cfg, arc
vars == <<cfg, arc>>
Configs == UNION {{[n |-> nk[1], k |-> nk[2], nc |-> f, nsc |-> g] :
                    f \in [0..nk[1] - 1 -> 1..2 * nk[1]], g \in [0..nk[1] * nk[2] - 1 -> 1..MAXC]}
                  : nk \in (1..MAXN) \X (1..MAXK)}
Arcs == {<<a, b, w>> \in (0..L - 1) \X (0..L - 1) \X {1, 2, 3, 4, 6, 12} : a % 2 = 0}
None == [n |-> 0]
Init == \/ cfg \in Configs /\ arc = <<>>
        \/ cfg = None /\ arc \in Arcs
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
N == cfg.n
K == cfg.k
M == Base(N, K, cfg.nsc)
Pairs == UNION {{s} \X (0..cfg.nc[s] - 1) : s \in 0..N - 1}
Ids == cfg = None \/
    /\ Cardinality(ChunkIds(N, cfg.nc)) = Cardinality(Pairs)
    /\ \A p \in Pairs : Stripe(N, ChunkId(N, p[1], p[2])) = p[1] /\ Position(N, ChunkId(N, p[1], p[2])) = p[2]
    /\ \A id \in -4 * N..2 * N * N + 4 * N : Valid(N, cfg.nc, id) <=> id \in ChunkIds(N, cfg.nc)
\* every cell of a sub-stripe belongs to exactly one (chunk, sub-chunk) pair
Subs == cfg = None \/
    \A s \in 0..N - 1 :
       LET cells == UNION {{t} \X (0..cfg.nc[s] * cfg.nsc[t] - 1) : t \in s * K..(s + 1) * K - 1}
           id(x) == <<ChunkOf(x[2], cfg.nsc[x[1]]), SubId(M, K, x[1], x[2], cfg.nsc[x[1]])>>
       IN /\ {id(x) : x \in cells} = (0..cfg.nc[s] - 1) \X SubIds(M, K, s, cfg.nsc)
          /\ Cardinality({id(x) : x \in cells}) = Cardinality(cells)
Walks == cfg # None \/ Walk(arc[1], arc[2], arc[3], L) = CellsMet(arc[1], arc[2], arc[3], L)
=============================================================================
