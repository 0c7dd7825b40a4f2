------------------------------- MODULE BigInt -------------------------------
(* Arbitrary precision integers for TLC, whose own integers are 32 bits wide.
   A number is a tuple <<sign, l0, l1, ...>> with sign in {-1,0,1} and base
   2^15 limbs, least significant first, no superfluous high zero limbs; zero is
   <<0>>.  The definitions below are complete; for speed TLC may use the Java
   overrides of BAdd, BSub, BMul, BCmp and BShl in spec/java/BigInt.java, which
   spec/MCBigInt.tla compares with these definitions (PAdd, PMul, ...).         *)
EXTENDS Integers, Sequences

BASE == 32768

\* ---- magnitudes: sequences of limbs
RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m
            ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

At(m, i) == IF i \in 1..Len(m) THEN m[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF At(a, i) < At(b, i) THEN -1
                    ELSE IF At(a, i) > At(b, i) THEN 1
                    ELSE CmpFrom(a, b, i - 1)
CmpM(a, b) == CmpFrom(a, b, Max2(Len(a), Len(b)))

RECURSIVE AddAcc(_, _, _, _, _)
AddAcc(a, b, i, carry, acc) ==
    IF i > Max2(Len(a), Len(b)) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == At(a, i) + At(b, i) + carry
         IN AddAcc(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
AddM(a, b) == AddAcc(a, b, 1, 0, <<>>)

RECURSIVE SubAcc(_, _, _, _, _)   \* a >= b
SubAcc(a, b, i, borrow, acc) ==
    IF i > Len(a) THEN Strip(acc)
    ELSE LET d == At(a, i) - At(b, i) - borrow
         IN SubAcc(a, b, i + 1, IF d < 0 THEN 1 ELSE 0, Append(acc, IF d < 0 THEN d + BASE ELSE d))
SubM(a, b) == SubAcc(a, b, 1, 0, <<>>)

RECURSIVE Mul1Acc(_, _, _, _, _)
Mul1Acc(a, k, i, carry, acc) ==
    IF i > Len(a) THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET p == a[i] * k + carry
         IN Mul1Acc(a, k, i + 1, p \div BASE, Append(acc, p % BASE))
RECURSIVE MulAcc(_, _, _, _)
MulAcc(a, b, j, acc) ==
    IF j > Len(b) THEN Strip(acc)
    ELSE MulAcc(a, b, j + 1, AddM(acc, [i \in 1..(j - 1) |-> 0] \o Mul1Acc(a, b[j], 1, 0, <<>>)))
MulM(a, b) == MulAcc(a, b, 1, <<>>)

\* ---- signed numbers
Mag(x) == SubSeq(x, 2, Len(x))
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m

PAdd(x, y) == LET c == CmpM(Mag(x), Mag(y)) IN
              IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN Mk(x[1], AddM(Mag(x), Mag(y)))
              ELSE IF c = 0 THEN <<0>>
              ELSE IF c > 0 THEN Mk(x[1], SubM(Mag(x), Mag(y)))
              ELSE Mk(y[1], SubM(Mag(y), Mag(x)))
BNeg(x) == <<-x[1]>> \o Mag(x)
PSub(x, y) == PAdd(x, BNeg(y))
PMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN <<0>> ELSE Mk(x[1] * y[1], MulM(Mag(x), Mag(y)))
PCmp(x, y) == IF x[1] # y[1] THEN IF x[1] < y[1] THEN -1 ELSE 1
              ELSE x[1] * CmpM(Mag(x), Mag(y))
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
PShl(x, n) == IF x[1] = 0 THEN x
              ELSE PMul(x, <<1>> \o [i \in 1..(n \div 15) |-> 0] \o <<Pow2(n % 15)>>)

BAdd(x, y) == PAdd(x, y)
BSub(x, y) == PSub(x, y)
BMul(x, y) == PMul(x, y)
BCmp(x, y) == PCmp(x, y)
BShl(x, n) == PShl(x, n)

\* ---- conversions and conveniences
RECURSIVE NatM(_)
NatM(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NatM(n \div BASE)
B(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o NatM(n) ELSE <<-1>> \o NatM(-n)
BSgn(x) == x[1]
BSq(x) == BMul(x, x)
BAbs(x) == IF x[1] < 0 THEN BNeg(x) ELSE x
BLeq(x, y) == BCmp(x, y) <= 0
BLt(x, y) == BCmp(x, y) < 0
BMin(x, y) == IF BLeq(x, y) THEN x ELSE y
BMax(x, y) == IF BLeq(x, y) THEN y ELSE x
IsBig(x) == /\ Len(x) >= 1 /\ x[1] \in {-1, 0, 1}
            /\ (x[1] = 0) <=> (Len(x) = 1)
            /\ \A i \in 2..Len(x) : x[i] \in 0..(BASE - 1)
            /\ Len(x) > 1 => x[Len(x)] # 0
=============================================================================
