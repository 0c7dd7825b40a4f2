SPECIFICATION Spec
INVARIANT Laws
PROPERTY Step
CONSTANT M = 5
CHECK_DEADLOCK FALSE
