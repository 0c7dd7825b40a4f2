SPECIFICATION Spec
INVARIANT Laws
CONSTANT C = 8
CHECK_DEADLOCK FALSE
