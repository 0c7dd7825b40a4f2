------------------------------- MODULE Codec -------------------------------
(* The byte format of encoded regions.  A leaf is its type code followed by its
   payload; a compound is its type code followed by its two operands, each
   preceded by its length as LEN digits in base RADIX, least significant first. *)
EXTENDS Integers, Sequences
CONSTANTS LEAVES,     \* type codes of the simple regions
          NODES,      \* type codes of the compound regions
          LeafOK(_, _), \* whether a leaf of a type may have a payload of this size
          LEN, RADIX
RECURSIVE Digits(_, _), Number(_), Encode(_), Parse(_)
Digits(n, k) == IF k = 0 THEN <<>> ELSE <<n % RADIX>> \o Digits(n \div RADIX, k - 1)
\* -1: too large to be the length of anything
Number(s) == IF s = <<>> THEN 0
             ELSE LET h == Number(Tail(s)) IN IF h < 0 \/ h > 100000 THEN -1 ELSE h * RADIX + s[1]
IsLeaf(t) == t.t \in LEAVES
Encode(t) == IF IsLeaf(t) THEN <<t.t>> \o t.b
             ELSE LET l == Encode(t.l) r == Encode(t.r)
                  IN <<t.t>> \o Digits(Len(l), LEN) \o l \o Digits(Len(r), LEN) \o r
Bad == [t |-> -1]
OK(t) == t.t # -1
From(s, k) == SubSeq(s, k, Len(s))
\* an operand at the beginning of s: the operand and the bytes it occupies
Operand(s) == IF Len(s) < LEN THEN [x |-> Bad, n |-> 0]
              ELSE LET n == Number(SubSeq(s, 1, LEN))
                   IN IF n < 0 \/ n > Len(s) - LEN THEN [x |-> Bad, n |-> 0]
                      ELSE [x |-> Parse(SubSeq(s, LEN + 1, LEN + n)), n |-> LEN + n]
\* the region that a byte string encodes
Parse(s) ==
    IF s = <<>> THEN Bad
    ELSE IF s[1] \in LEAVES THEN IF LeafOK(s[1], Len(s) - 1) THEN [t |-> s[1], b |-> Tail(s)] ELSE Bad
    ELSE IF s[1] \in NODES
         THEN LET a == Operand(Tail(s))
              IN IF ~OK(a.x) THEN Bad
                 ELSE LET c == Operand(From(s, 2 + a.n))
                      IN IF ~OK(c.x) \/ 1 + a.n + c.n # Len(s) THEN Bad
                         ELSE [t |-> s[1], l |-> a.x, r |-> c.x]
    ELSE Bad
=============================================================================
