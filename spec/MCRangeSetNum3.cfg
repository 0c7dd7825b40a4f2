SPECIFICATION Spec
CONSTANT W = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
