------------------------------- MODULE Healpix -------------------------------
(* The HEALPix grid (Gorski et al. 2005) in its nested numbering.  At level l a
   base face has n = 2^l pixels on a side.  A direction with z = sin(latitude)
   and t = longitude in quarter turns lies
   - in the belt |z| <= 2/3, between the lines p <= n (1/2 + t - 3z/4) < p + 1
     falling and m <= n (1/2 + t + 3z/4) < m + 1 rising in t;
   - in a cap, with q = floor(t), u = t - q, s = sqrt(3 (1 - |z|)) < 1, between
     the lines p <= n u s < p + 1 and m <= n (1-u) s < m + 1.
   Everything below is arithmetic on these line numbers.                      *)
EXTENDS Integers
RECURSIVE P2i(_)
P2i(k) == IF k = 0 THEN 1 ELSE 2 * P2i(k - 1)
Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x > n - 1 THEN n - 1 ELSE x
\* <<face, x, y>>
Belt(p, m, l) ==
    LET n == P2i(l)
        fp == p \div n fm == m \div n
        f == IF fp = fm THEN (fp % 4) + 4 ELSE IF fp < fm THEN fp % 4 ELSE (fm % 4) + 8
    IN <<f, m % n, n - 1 - (p % n)>>
Cap(q, p, m, north, l) ==
    LET n == P2i(l) a == Clamp(p, n) b == Clamp(m, n) IN
    IF north THEN <<q, n - 1 - b, n - 1 - a>> ELSE <<q + 8, a, b>>
\* dropping two bits of the number halves both coordinates
Parent(c) == <<c[1], c[2] \div 2, c[3] \div 2>>
RECURSIVE Spread(_)
Spread(x) == IF x = 0 THEN 0 ELSE (x % 2) + 4 * Spread(x \div 2)
\* the nested number, for levels up to 13
Number(c, l) == c[1] * P2i(l) * P2i(l) + Spread(c[2]) + 2 * Spread(c[3])
=============================================================================
