-------------------------------- MODULE Vec3 --------------------------------
(* 3-vectors of small integers *)
EXTENDS Integers
Dot3(a, b) == (a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3])
Cross3(a, b) == << (a[2] * b[3]) - (a[3] * b[2]), (a[3] * b[1]) - (a[1] * b[3]), (a[1] * b[2]) - (a[2] * b[1]) >>
Or3(a, b, c) == Dot3(a, Cross3(b, c))
CC3(a, b, c, d) == Dot3(Cross3(a, b), Cross3(c, d))
=============================================================================
