SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT C = 48
