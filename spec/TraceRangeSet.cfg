SPECIFICATION TSpec
CONSTANTS K = 14
Obj = {1, 2, 3}
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
