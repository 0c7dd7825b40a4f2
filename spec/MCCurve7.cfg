SPECIFICATION Spec
INVARIANT Laws
PROPERTY Step
CONSTANT M = 7
CHECK_DEADLOCK FALSE
