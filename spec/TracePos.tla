------------------------------ MODULE TracePos ------------------------------
(* Round trips of regions through IVOA POS text: x was written, y was read.
   Coordinates in units of 2^-75, angles in units of 2^-60 radians.           *)
EXTENDS Vec, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
BLOCKS == 16
VARIABLE i
P2(n) == BShl(B(1), n)
PI60 == <<1, 12429, 4276, 23202, 4639, 3>>
Tol == P2(60 - 44)
Near(a, b) == BLeq(BAbs(BSub(a, b)), Tol)
NearMod(a, b) == Near(a, b) \/ Near(BAbs(BSub(a, b)), BShl(PI60, 1))
NearDir(u, v) == LET d == VSub(u, v) IN BLeq(VSq(d), P2(150 - 88))
Box(x, y) == /\ y.c = "box" /\ x.empty = y.empty
             /\ x.empty \/ /\ x.full = y.full
                           /\ Near(x.s, y.s) /\ Near(x.n, y.n)
                           /\ NearMod(x.a, y.a) /\ NearMod(x.b, y.b) /\ Near(x.w, y.w)
\* a circle of nearly 180 degrees may become full
Circle(x, y) == /\ y.c = "circle" /\ x.empty = y.empty
                /\ x.full => y.full
                /\ NearDir(x.m, y.m)
                /\ x.empty \/ x.full \/ Near(x.r, y.r) \/ (y.full /\ BLeq(BSub(PI60, x.r), P2(40)))
\* the same vertices, starting anywhere
Polygon(x, y) == /\ y.c = "polygon" /\ Len(x.v) = Len(y.v)
                 /\ \E s \in 0..(Len(x.v) - 1) : \A k \in 1..Len(x.v) : NearDir(x.v[k], y.v[((k + s - 1) % Len(x.v)) + 1])
Good(e) == CASE e.x.c = "box" -> e.word = "RANGE" /\ e.shape /\ Box(e.x, e.y)
             [] e.x.c = "circle" -> e.word = "CIRCLE" /\ e.shape /\ Circle(e.x, e.y)
             [] e.x.c = "polygon" -> e.word = "POLYGON" /\ e.shape /\ Polygon(e.x, e.y)
             [] OTHER -> e.word = "" /\ e.y.c = "!NotImplementedError"
Init == i \in 1..BLOCKS
Next == /\ i <= N
        /\ IF Good(Trace[i]) THEN TRUE ELSE PrintT(<<"REJECT", i, Trace[i].text, Trace[i].y.c>>)
        /\ i' = i + BLOCKS
Spec == Init /\ [][Next]_i
Accepted == TLCGet("stats").distinct = N + BLOCKS
=============================================================================
