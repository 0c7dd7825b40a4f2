SPECIFICATION Spec
CONSTANT Edits = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
