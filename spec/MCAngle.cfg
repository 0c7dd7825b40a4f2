SPECIFICATION Spec
CONSTANT M = 14
INVARIANTS Normalized DivisionIsRight RotationReaches BetweenIsSmaller Triangle CenterIsHalfWay
CHECK_DEADLOCK FALSE
