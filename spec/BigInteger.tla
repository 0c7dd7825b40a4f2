----------------------------- MODULE BigInteger -----------------------------
(* A number in caller supplied storage of cap 32-bit digits: its value is an
   exact integer; an operation whose result may not fit is refused and changes
   nothing.                                                                   *)
EXTENDS BigInt
\* digits needed for a value
RECURSIVE NDigitsFrom(_, _)
NDigitsFrom(x, n) == IF BLt(BAbs(x), BShl(B(1), 32 * n)) THEN n ELSE NDigitsFrom(x, n + 1)
NDigits(x) == IF Len(x) <= 3 THEN NDigitsFrom(x, 0) ELSE NDigitsFrom(x, ((Len(x) - 2) * 15) \div 32)
\* result of an operation
Result(op, x, y, w, n) ==
    CASE op \in {"setu", "seti"} -> w
      [] op = "zero" -> B(0)
      [] op = "neg" -> BNeg(x)
      [] op = "asg" -> y
      [] op = "add" -> BAdd(x, y)
      [] op = "sub" -> BSub(x, y)
      [] op = "mul" -> BMul(x, y)
      [] op = "shl" -> BShl(x, n)
\* storage that is always enough
Enough(op, x, y, n, self) ==
    LET a == NDigits(x) c == NDigits(y) IN
    CASE op \in {"setu", "seti"} -> 2
      [] op \in {"zero", "neg"} -> 0
      [] op = "asg" -> IF self THEN 0 ELSE c
      [] op \in {"add", "sub"} -> IF c = 0 THEN a ELSE IF a = 0 THEN c ELSE Max2(a, c) + 1
      [] op = "mul" -> IF a = 0 \/ c = 0 THEN 0 ELSE a + c
      [] op = "shl" -> IF a = 0 \/ n = 0 THEN a ELSE a + n \div 32 + 1
MayRefuse(op, x, y, n, self, cap) == cap < Enough(op, x, y, n, self)
MustRefuse(r, cap) == NDigits(r) > cap
=============================================================================
