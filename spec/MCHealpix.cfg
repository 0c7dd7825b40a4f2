SPECIFICATION Spec
CONSTANT Max = 4
INVARIANT Inv
PROPERTY Nested
CHECK_DEADLOCK FALSE
