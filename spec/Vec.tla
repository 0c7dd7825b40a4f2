-------------------------------- MODULE Vec --------------------------------
(* Exact 3-vectors with big integer components.                               *)
EXTENDS BigInt
VDot(a, b) == BAdd(BAdd(BMul(a[1], b[1]), BMul(a[2], b[2])), BMul(a[3], b[3]))
VCross(a, b) == << BSub(BMul(a[2], b[3]), BMul(a[3], b[2])),
                   BSub(BMul(a[3], b[1]), BMul(a[1], b[3])),
                   BSub(BMul(a[1], b[2]), BMul(a[2], b[1])) >>
VDet(a, b, c) == VDot(a, VCross(b, c))
VSq(a) == VDot(a, a)
VNeg(a) == <<BNeg(a[1]), BNeg(a[2]), BNeg(a[3])>>
VAdd(a, b) == <<BAdd(a[1], b[1]), BAdd(a[2], b[2]), BAdd(a[3], b[3])>>
VSub(a, b) == VAdd(a, VNeg(b))
VScale(k, a) == <<BMul(k, a[1]), BMul(k, a[2]), BMul(k, a[3])>>
VZero(a) == BSgn(a[1]) = 0 /\ BSgn(a[2]) = 0 /\ BSgn(a[3]) = 0
EX == <<B(1), B(0), B(0)>>
EY == <<B(0), B(1), B(0)>>
EZ == <<B(0), B(0), B(1)>>
\* positive scaling: a and b point in the same direction
VSame(a, b) == VZero(VCross(a, b)) /\ BSgn(VDot(a, b)) > 0
\* the orientation of three vectors
Orient(a, b, c) == BSgn(VDet(a, b, c))
=============================================================================
