--------------------------------- MODULE Pos ---------------------------------
(* What a text in the IVOA POS syntax means:
     CIRCLE lon lat radius | RANGE lon1 lon2 lat1 lat2 | POLYGON lon lat lon lat lon lat ...
   in degrees, separated by white space. A RANGE may be unbounded (infinite
   bounds); anything else that is not a number of degrees in range, or not of
   the stated shape and length, is malformed.  Numbers are whole degrees here. *)
EXTENDS Integers, Sequences
PInf == 100001
NInf == -100001
NaN  == 100002
Junk == 100003   \* not a number at all
Finite(x) == x > -100000 /\ x < 100000
Bad(x) == x = Junk
Err == <<0>>
Any == <<1>>     \* a region or an error: nothing is promised
Lat(x) == x >= -90 /\ x <= 90
AllFinite(v) == \A i \in DOMAIN v : Finite(v[i])
Circle(v) == IF Len(v) # 3 \/ ~AllFinite(v) THEN Err
             ELSE IF ~Lat(v[2]) THEN Err
             ELSE <<2, v[1] % 360, v[2], v[3]>>
\* bounds of a range: infinities are the ends of the coordinate
Lon(x) == IF x = PInf THEN 360 ELSE IF x = NInf THEN 0 ELSE x
LatOf(x) == IF x = PInf THEN 90 ELSE IF x = NInf THEN -90 ELSE x
Range(v) == IF Len(v) # 4 THEN Err
            ELSE IF \A i \in 1..4 : v[i] = NaN THEN <<5>>  \* how the empty box is written
            ELSE IF \E i \in 1..4 : v[i] = NaN THEN Any
            ELSE LET a == Lon(v[1]) b == Lon(v[2]) c == LatOf(v[3]) d == LatOf(v[4]) IN
                 IF ~Lat(c) \/ ~Lat(d) THEN Err
                 ELSE IF c > d \/ a < 0 \/ a > 360 \/ b < 0 \/ b > 360 THEN Any
                 ELSE IF v[1] = PInf \/ v[2] = NInf THEN Any
                 ELSE <<3, a, b, c, d>>
Polygon(v, convex) ==
    IF Len(v) % 2 = 1 \/ Len(v) < 6 \/ ~AllFinite(v) THEN Err
    ELSE IF \E i \in DOMAIN v : i % 2 = 0 /\ ~Lat(v[i]) THEN Err
    ELSE IF convex THEN <<4>> \o v ELSE Any
\* shape: 1 CIRCLE, 2 RANGE, 3 POLYGON, anything else is not a shape; convex: the points are known to be in convex position
Meaning(shape, v, convex) ==
    IF shape \notin 1..3 \/ \E i \in DOMAIN v : Bad(v[i]) THEN Err
    ELSE CASE shape = 1 -> Circle(v) [] shape = 2 -> Range(v) [] shape = 3 -> Polygon(v, convex)
=============================================================================
