SPECIFICATION Spec
CONSTANT M = 1
INVARIANT Algebra
CHECK_DEADLOCK FALSE
