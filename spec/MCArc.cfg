SPECIFICATION Spec
INVARIANT Laws
CONSTANT C = 5
CHECK_DEADLOCK FALSE
