SPECIFICATION Spec
INVARIANT Laws
CONSTANT M = 4
CHECK_DEADLOCK FALSE
