SPECIFICATION Spec
CONSTANT W = 4
INVARIANT Laws
CHECK_DEADLOCK FALSE
