SPECIFICATION Spec
CONSTANT Edits = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
