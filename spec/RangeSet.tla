------------------------------ MODULE RangeSet ------------------------------
(* The abstract data type implemented by lsst::sphgeom::RangeSet.

   The 64 bit integers are partitioned into K consecutive "atoms" by K
   breakpoints b0 = 0 < b1 < ... < b(K-1) < 2^64; atom i is [b_i, b_(i+1)) and
   the last one ends at 2^64, which the library writes 0.  Any history whose
   end points are breakpoints acts on whole atoms, so K atoms stand for every
   choice of the K breakpoints: a conformance driver picks the concrete ones.
   S maps each object to the set of atoms it holds.                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS K,      \* number of atoms
          Obj     \* the live objects

VARIABLE S

Atoms == 0..(K - 1)
TypeOK == S \in [Obj -> SUBSET Atoms]

\* [first, last): everything when first = last, wrapping when first > last; 0 as last is 2^64
RangeAtoms(f, l) == IF f = l THEN Atoms
                    ELSE IF l = 0 THEN f..(K - 1)
                    ELSE IF f < l THEN f..(l - 1)
                    ELSE Atoms \ (l..(f - 1))

(* ---- set algebra of the operators *)
Apply(op, a, b) == CASE op = "and" -> a \cap b
                     [] op = "or"  -> a \cup b
                     [] op = "sub" -> a \ b
                     [] op = "xor" -> (a \ b) \cup (b \ a)
SetOps == {"and", "or", "sub", "xor"}

(* ---- what the public observers must report *)
RECURSIVE RangesFrom(_, _)
RangesFrom(s, i) ==
    IF i >= K THEN <<>>
    ELSE IF i \notin s THEN RangesFrom(s, i + 1)
    ELSE LET e == CHOOSE e \in (i + 1)..K : /\ e \notin s
                                            /\ \A j \in i..(e - 1) : j \in s
         IN <<<<i, e % K>>>> \o RangesFrom(s, e)
Ranges(s)     == RangesFrom(s, 0)           \* sorted, disjoint, non adjacent
Complement(s) == Atoms \ s
Intersects(s, t) == s \cap t # {}
Contains(s, t)   == t \subseteq s
IsWithin(s, t)   == s \subseteq t
Answers(s, t) == <<Intersects(s, t), Contains(s, t), IsWithin(s, t), ~Intersects(s, t)>>

(* ---- actions: one per public mutator *)
Set(o, v) == S' = [S EXCEPT ![o] = v]
Insert(o, f, l)  == Set(o, S[o] \cup RangeAtoms(f, l))
Erase(o, f, l)   == Set(o, S[o] \ RangeAtoms(f, l))
DoComplement(o)  == Set(o, Complement(S[o]))
Fill(o)          == Set(o, Atoms)
Clear(o)         == Set(o, {})
Assign(o, a)     == Set(o, S[a])
Complemented(o, a) == Set(o, Complement(S[a]))
Binary(o, op, a, b) == Set(o, Apply(op, S[a], S[b]))
OpAssign(o, op, b)  == Set(o, Apply(op, S[o], S[b]))
Swap(o, p) == S' = [S EXCEPT ![o] = S[p], ![p] = S[o]]
Construct(o, rs) == Set(o, UNION {RangeAtoms(rs[i][1], rs[i][2]) : i \in DOMAIN rs})
Query == UNCHANGED S

Init == S = [o \in Obj |-> {}]
Next == \E o \in Obj :
          \/ \E f, l \in Atoms : Insert(o, f, l) \/ Erase(o, f, l)
          \/ DoComplement(o) \/ Fill(o) \/ Clear(o)
          \/ \E a \in Obj : Assign(o, a) \/ Complemented(o, a) \/ Swap(o, a)
          \/ \E a, b \in Obj, op \in SetOps : Binary(o, op, a, b)
          \/ \E b \in Obj, op \in SetOps : OpAssign(o, op, b)
          \/ Query
Spec == Init /\ [][Next]_S

(* ---- properties of the data type itself *)
CanonicalSeq(r) ==
    /\ \A i \in DOMAIN r : r[i][2] = 0 \/ r[i][1] < r[i][2]
    /\ \A i \in 1..(Len(r) - 1) : r[i][2] # 0 /\ r[i][2] < r[i + 1][1]
Canonical == \A o \in Obj : CanonicalSeq(Ranges(S[o]))
Denotes == \A o \in Obj : LET r == Ranges(S[o])
                          IN S[o] = UNION {RangeAtoms(r[i][1], r[i][2]) : i \in {j \in DOMAIN r : r[j] # <<0, 0>>}}
                                    \cup (IF \E i \in DOMAIN r : r[i] = <<0, 0>> THEN Atoms ELSE {})
EqualIffSameRanges == \A a, b \in Obj : (S[a] = S[b]) <=> (Ranges(S[a]) = Ranges(S[b]))
ComplementRanges == \A o \in Obj : Len(Ranges(S[o])) - Len(Ranges(Complement(S[o]))) \in {-1, 0, 1}
AnswersConsistent == \A a, b \in Obj :
    LET q == Answers(S[a], S[b]) IN /\ q[1] # q[4]
                                    /\ q[2] /\ q[3] => S[a] = S[b]
                                    /\ q[1] /\ q[2] => S[b] # {}
                                    /\ q = <<q[1], Answers(S[b], S[a])[3], Answers(S[b], S[a])[2], q[4]>>
DeMorgan == \A a, b \in Obj :
    Complement(Apply("or", S[a], S[b])) = Apply("and", Complement(S[a]), Complement(S[b]))
=============================================================================
